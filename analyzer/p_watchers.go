package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Autonomous agents: what watchers do in which states, and the transitions that follow.

const (
	aaW   = "aagent/watchers/"
	aaM   = "aagent/machine"
	baseW = "aagent/watchers/watcher"
)

// watcherPkgs lists the packages of watchers: those with a type that embeds the basic one.
func watcherPkgs(p *Prog) []string {
	var out []string
	for _, pk := range p.SSA.AllPackages() {
		path := strings.TrimPrefix(pk.Pkg.Path(), modPath+"/")
		if !strings.HasPrefix(path, aaW) || path == baseW {
			continue
		}
		o := pk.Pkg.Scope().Lookup("Watcher")
		if o == nil {
			continue
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && typeName(deref(st.Field(i).Type())) == baseW+".Watcher" {
				out = append(out, path)
			}
		}
	}
	sort.Strings(out)
	return out
}

// stateConsts are the constants of the type State of a package, by name.
func stateConsts(p *Prog, pkg string) map[string]constant.Value {
	out := map[string]constant.Value{}
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() != modPath+"/"+pkg {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			if c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const); ok && typeName(c.Type()) == pkg+".State" {
				out[n] = c.Val()
			}
		}
	}
	return out
}

func isShould(c *ssa.CallCommon) bool {
	return mname(c) == "ShouldWatch" && strings.Contains(cname(c), aaW)
}

func init() {
	register(&Check{
		ID: "M02", Level: "proof",
		Rule:        "watchers only act (commands, requests, publishing, data, files, transitions) after the test for the states they are active in held, or on an outcome that is only reported after it held. That test only holds when the machine is in one of those states, or there are none, and every required machine is in the state required. For each outcome the transitions it leads to are those it stands for; failures are reported as such and success only after what was to be done was done. Machines only fire events possible in their state, only machines that validated are given out, and what a state starts can be stopped as soon as it is started",
		Explanation: "must-facts on all paths to actions and returns; constant propagation along all paths of the functions that handle outcomes, for every outcome; order of storing the means to stop before starting",
		Run: func(p *Prog, r *Report) {
			actsInState(p, r)
			shouldWatch(p, r)
			outcomes(p, r)
			reported(p, r)
			machinesFire(p, r)
			stoppable(p, r)
			transitions(p, r)
			timers(p, r)
		},
	})
}

// acts are calls that do something.
func acts(c ssa.CallInstruction) string {
	n := cname(c.Common())
	switch mname(c.Common()) {
	case "SuccessTransition", "FailureTransition", "Transition":
		if strings.Contains(n, "aagent/") {
			return "transition"
		}
	case "DataPut", "DataDelete":
		if strings.Contains(n, "aagent/") {
			return "change of data"
		}
	case "PublishMsg", "Publish":
		if strings.Contains(n, "nats.go") {
			return "publishing"
		}
	case "Execute":
		if strings.Contains(n, "ccm") {
			return "applying of a manifest"
		}
	case "EnterGovernor":
		if strings.Contains(n, "aagent/") {
			return "taking of a slot"
		}
	}
	switch n {
	case "os/exec.Command", "os/exec.CommandContext":
		return "command"
	case "(*net/http.Client).Do", "net/http.Get":
		return "request"
	case "os.Rename", "os.RemoveAll", "os.WriteFile", "os.MkdirAll":
		return "change of files"
	}
	return ""
}

func actsInState(p *Prog, r *Report) {
	n := 0
	for _, pkg := range watcherPkgs(p) {
		consts := stateConsts(p, pkg)
		typ := pkg + ".State"
		s := newSpec(p)
		s.cond(func(v ssa.Value, o Outcome) []string {
			if c, _ := callOf(v); c != nil && isShould(&c.Call) {
				if o == True {
					return []string{"active"}
				}
				return []string{"inactive"}
			}
			return nil
		})
		for _, f := range p.Funcs {
			if f.Name() == "ShouldWatch" {
				s.opaque[fname(f)] = true
			}
		}
		a0 := s.facts()
		// the outcomes that are reported when the watcher is not to act
		skip := map[string]constant.Value{}
		for _, f := range p.inPkg(pkg) {
			i := resultIdx(f, typ)
			if i < 0 {
				continue
			}
			for _, cv := range consts {
				r0 := quiet(p)
				r0.returnsConst("x", a0, f, i, cv, func(s Set) bool {
					if !s.has("active") && (s.has("inactive") || hasShould(f)) {
						skip[cv.String()] = cv
					}
					return true
				}, "", "")
			}
		}
		s.cond(func(v ssa.Value, o Outcome) []string {
			x, y, eq, ok := equality(v, o)
			if !ok {
				return nil
			}
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				c, isC := pr[1].(*ssa.Const)
				if !isC || c.Value == nil || typeName(pr[0].Type()) != typ || !staysFrom(p, pr[0], typ) {
					continue
				}
				if eq && skip[c.Value.String()] == nil {
					return []string{"active"}
				}
				if !eq && skip[c.Value.String()] != nil && len(skip) == 1 {
					return []string{"active"}
				}
			}
			return nil
		})
		ctx := s.facts().Whole()
		k := 0
		for _, f := range p.inPkg(pkg) {
			for _, c := range callsOf(f) {
				what := acts(c)
				if what == "" || promWriter(f) || isFinish(f) {
					continue
				}
				k++
				r.require("active", ctx, c, what, has("active"), "the states the watcher is active in having been matched")
			}
		}
		n += k
		// outcomes come from functions that matched the states, or are called by those
		for _, f := range p.inPkg(pkg) {
			if resultIdx(f, typ) < 0 || hasShould(f) {
				continue
			}
			for _, c := range p.callsTo(fname(f)) {
				r.require("outcome", ctx, c, "outcome of "+short(f.Name()), has("active"), "the states the watcher is active in having been matched")
			}
		}
	}
	r.need("active", "things watchers do", n, 30)
}

// inPkgOf: the value is in code of the package.
func inPkgOf(v ssa.Value, pkg string) bool {
	f := v.Parent()
	return f != nil && fnPkgPath(f) == modPath+"/"+pkg
}

func hasShould(f *ssa.Function) bool {
	for _, c := range callsOf(f) {
		if isShould(c.Common()) {
			return true
		}
	}
	return false
}

// staysFrom: the outcome is one that a function gave.
func staysFrom(p *Prog, v ssa.Value, typ string) bool {
	given := false
	for _, o := range (&Flow{P: p, NoDescend: true, Stop: func(v ssa.Value) string {
		if c, i := callOf(v); c != nil {
			sig := c.Call.Signature()
			if i < sig.Results().Len() && typeName(sig.Results().At(i).Type()) == typ {
				return "outcome"
			}
		}
		return ""
	}}).From(v) {
		if o.Label != "outcome" && !strings.HasPrefix(o.Label, "const") && !strings.HasPrefix(o.Label, "?") {
			return false
		}
		given = given || o.Label == "outcome"
	}
	return given
}

// promWriter: the function only maintains statistics.
func promWriter(f *ssa.Function) bool {
	return strings.HasSuffix(f.Prog.Fset.Position(f.Pos()).Filename, "/prometheus.go")
}

func isFinish(f *ssa.Function) bool { return false }

// shouldWatch: when the test for states holds.
func shouldWatch(p *Prog, r *Report) {
	const wf = baseW + ".Watcher."
	f := r.anchor("states", "(*"+baseW+".Watcher).ShouldWatch")
	if f == nil {
		return
	}
	s := newSpec(p)
	isState := func(v ssa.Value) bool {
		return onlyOf(&Flow{P: p, NoDescend: true, Stop: callSource("State")}, v, "result:State")
	}
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inPkgOf(v, baseW) {
			return nil
		}
		if x, empty, ok := emptiness(v, o); ok && empty {
			switch loadedField(x) {
			case wf + "activeStates":
				return []string{"in state"}
			case wf + "requiredStates":
				return []string{"required"}
			}
		}
		if c, _ := callOf(v); c != nil && o == True && nameIn(mname(&c.Call), "Contains") {
			av := args(&c.Call)
			if len(av) == 2 && onlyOf(&Flow{P: p}, av[0], "field:"+wf+"activeStates") && isState(av[1]) {
				return []string{"in state"}
			}
		}
		x, y, eq, ok := equality(v, o)
		if !ok || !eq {
			return nil
		}
		fl := &Flow{P: p, NoDescend: true, Stop: callSource("LookupExternalMachineState")}
		for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
			if isState(pr[0]) && onlyOf(&Flow{P: p}, pr[1], "field:"+wf+"activeStates") {
				return []string{"in state"}
			}
			if onlyOf(fl, pr[0], "result:LookupExternalMachineState") && onlyOf(&Flow{P: p}, pr[1], "field:"+foreignState+".MachineState") {
				return []string{"matched"}
			}
		}
		return nil
	})
	s.result("found", 1, Nil, func(c ssa.CallInstruction) bool {
		return onlyOf(&Flow{P: p}, args(c.Common())[0], "field:"+foreignState+".MachineName")
	}, "(*"+aaM+".Machine).LookupExternalMachineState", modelM+".LookupExternalMachineState", "("+modelM+").LookupExternalMachineState")
	a := s.facts()
	r.returnsRequire("states", a, f, 0, True, has("in state"), "watcher told to act", "no states being set or the machine being in one of them")

	// every required machine
	var loops []*loop
	for _, g := range p.inPkg(baseW) {
		for _, l := range loopsOf(g) {
			if v, _ := l.visits(); v != nil && onlyOf(&Flow{P: p}, v, "field:"+wf+"requiredStates") {
				loops = append(loops, l)
			}
		}
	}
	r.need("required", "loops over the required machines", len(loops), 1)
	for _, l := range loops {
		g := l.head.Parent()
		first := l.head.Instrs[len(l.head.Instrs)-1]
		r.at("required", first, "machines required", l.full, "the loop must visit every one")
		// a pass that does not match, however it ends, never leads to true, and no pass leads to true without the others
		matched := func(b *ssa.BasicBlock, si int) bool {
			st := a.state(g)
			some := false
			for _, d := range ordered(st.in[b]) {
				end := a.throughD(st, d, b, nil)
				nd := a.edgeD(st, d, end, b, b.Succs[si], si)
				if nd == nil || nd.facts.top {
					continue
				}
				some = true
				for _, one := range nd.facts.noParams().each() {
					if !one.has("matched") || !one.has("found") {
						return false
					}
				}
			}
			return some
		}
		var bad ssa.Instruction
		check := func(t *interp, b, prev *ssa.BasicBlock) {
			for _, ex := range t.from(b, prev, 0, ienv{}, "") {
				v := ex.vals[0]
				if v == nil || v.Kind() != constant.Bool || constant.BoolVal(v) {
					bad = ex.ret
				}
			}
		}
		for _, b := range l.head.Succs {
			if !l.body[b] {
				continue
			}
			// once a pass ended without a match, matches that follow do not make up for it
			check(&interp{p: p, mark: func(x *ssa.BasicBlock, k int, eff string) string {
				switch {
				case eff == "" && matched(x, k):
					return "stop"
				case x.Succs[k] == l.head:
					return "again"
				}
				return ""
			}}, b, l.head)
		}
		r.at("required", orInstr(bad, first), "machine in another state", bad == nil, "can lead to the watcher acting")
		bad = nil
		for b := range l.body {
			for si, to := range b.Succs {
				if b == l.head || !matched(b, si) {
					continue
				}
				// the passes after this one are as unknown as this one was
				check(&interp{p: p, stop: func(x *ssa.BasicBlock, k int) bool { return x.Succs[k] == l.head }}, to, b)
				if to == l.head {
					bad = nil
				}
			}
		}
		r.at("required", orInstr(bad, first), "machines after one that matches", bad == nil, "can be left out")
		if g != f {
			q := newSpec(p)
			q.cond(s.conds[0])
			q.result("required", 0, True, nil, fname(g))
			q.opaque[fname(g)] = true
			r.returnsRequire("required", q.facts(), f, 0, True, has("required"), "watcher told to act", "the required machines being in the states required")
		}
	}

	// watchers with tests of their own
	n := 0
	for _, pkg := range watcherPkgs(p) {
		for _, f := range p.inPkg(pkg) {
			if f.Name() != "ShouldWatch" || f.Signature.Recv() == nil || f.Synthetic != "" {
				continue
			}
			force := ""
			q := newSpec(p)
			q.cond(func(v ssa.Value, o Outcome) []string {
				if c, _ := callOf(v); c != nil && o == True && cname(&c.Call) == "(*"+baseW+".Watcher).ShouldWatch" {
					return []string{"active"}
				}
				if k := loadedField(v); o == True && strings.HasPrefix(k, pkg+".Watcher.") {
					force = k
					return []string{"forced"}
				}
				return nil
			})
			q.opaque["(*"+baseW+".Watcher).ShouldWatch"] = true
			n += r.returnsRequire("states", q.facts(), f, 0, True, anyOf(has("active"), has("forced")), "watcher told to act", "the states it is active in having been matched, or the machine forcing it")
			if force == "" {
				continue
			}
			z := newSpec(p)
			z.cond(func(v ssa.Value, o Outcome) []string {
				if !inPkgOf(v, pkg) {
					return nil
				}
				if x, y, eq, ok := equality(v, o); ok && eq {
					for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
						if c, ok := constString(pr[1]); ok && c == "FORCE_CHECK" && isState(pr[0]) {
							return []string{"forcing"}
						}
					}
				}
				return nil
			})
			zc := z.facts().Whole()
			for _, st := range p.fieldSt[force] {
				if b, ok := constBool(st.Val); ok && !b {
					continue
				}
				r.require("forced", zc, st, "forcing of a check", has("forcing"), "the machine being in the state that forces checks")
			}
		}
	}
	r.need("states", "watchers with tests of their own", n, 1)
}

const (
	modelM       = "aagent/model.Machine"
	foreignState = "aagent/model.ForeignMachineState"
)

func orInstr(a, b ssa.Instruction) ssa.Instruction {
	if a != nil {
		return a
	}
	return b
}

// what outcomes stand for: S and F one transition, SF either but one, T a transition named for the outcome, - none;
// with ? there may be none.
var outcomeOf = map[string]map[string]string{
	"execwatcher":        {"Success": "S", "Error": "F"},
	"expressionwatcher":  {"SuccessWhen": "S?", "FailWhen": "F?"},
	"filewatcher":        {"Changed": "S", "Error": "F"},
	"kvwatcher":          {"Changed": "S", "Error": "F"},
	"archivewatcher":     {"Downloaded": "S", "VerifiedOK": "S", "Error": "F", "VerifyFailed": "F"},
	"ccmmanifestwatcher": {"Stable": "S", "Error": "F", "Changes": "S", "Changes noop": "F"},
	"httpswitchwatcher":  {"On": "S", "Off": "F"},
	"machineswatcher":    {"Updated": "S", "Error": "F"},
	"pluginswatcher":     {"Updated": "S", "Error": "F"},
	"nagioswatcher":      {"OK": "T?", "WARNING": "T?", "CRITICAL": "T?", "UNKNOWN": "T?"},
	"schedulewatcher":    {"On": "S?", "Off": "F?", "Unknown": "F?"},
}

func outcomes(p *Prog, r *Report) {
	for _, pkg := range watcherPkgs(p) {
		name := strings.TrimPrefix(pkg, aaW)
		table, ok := outcomeOf[name]
		if !ok {
			// those without outcomes
			for _, f := range p.inPkg(pkg) {
				if resultIdx(f, pkg+".State") >= 0 {
					r.ob("outcomes", pkg, false, p.pos(f.Pos()), "the meaning of the outcomes of this watcher is not known")
				}
			}
			continue
		}
		typ := pkg + ".State"
		// the functions that handle outcomes: given one, they reach transitions, and no other such function calls them
		handlers := map[*ssa.Function]int{}
		for _, f := range p.inPkg(pkg) {
			for i, pr := range f.Params {
				if typeName(pr.Type()) == typ && transits(p, f) {
					handlers[f] = i
				}
			}
		}
		for f := range handlers {
			for _, c := range p.callsTo(fname(f)) {
				if _, is := handlers[c.Parent()]; is {
					delete(handlers, f)
				}
			}
		}
		viaField := ""
		if len(handlers) == 0 {
			viaField = pkg + ".Watcher.state"
			for _, f := range p.inPkg(pkg) {
				for _, c := range callsOf(f) {
					if acts(c) == "transition" {
						handlers[f] = -1
					}
				}
			}
		}
		r.need("outcomes", "handlers of outcomes in "+pkg, len(handlers), 1)
		for f, i := range handlers {
			for cn, cv := range stateConsts(p, pkg) {
				for _, noop := range []string{"", " noop"} {
					want, ok := table[cn+noop]
					if !ok {
						want = "-"
						if noop != "" {
							continue
						}
					}
					t := &interp{p: p, fields: map[string]constant.Value{}}
					if _, two := table[cn+" noop"]; two {
						t.fields[pkg+".Properties.Noop"] = constant.MakeBool(noop != "")
					}
					if viaField != "" {
						t.fields[viaField] = cv
					}
					t.inline = func(g *ssa.Function) bool { return fnPkgPath(g) == modPath+"/"+pkg }
					t.call = func(c ssa.CallInstruction) (string, map[int]constant.Value) {
						switch {
						case isShould(c.Common()):
							return "", map[int]constant.Value{0: constant.MakeBool(true)}
						case acts(c) == "transition":
							return mname(c.Common())[:1], nil
						}
						return "", nil
					}
					env := ienv{}
					if i >= 0 {
						env[f.Params[i]] = cv
					}
					got := map[string]bool{}
					for _, ex := range t.run(f, env) {
						got[ex.effects] = true
					}
					okO := true
					switch want {
					case "-":
						okO = len(got) == 1 && got[""]
					case "S", "F":
						okO = len(got) == 1 && got[want]
					default:
						k := want[:1]
						okO = got[k]
						for g := range got {
							okO = okO && (g == "" || g == k)
						}
					}
					r.ob("outcomes", fname(f)+" given "+cn+noop, okO, p.pos(f.Pos()), "leads to transitions {"+strings.Join(sortedKeys(got), "; ")+"}, stands for "+want)
				}
			}
			// transitions named for the outcome
			for _, c := range callsOf(f) {
				if mname(c.Common()) == "Transition" && acts(c) == "transition" && i >= 0 {
					lk, ok := args(c.Common())[0].(*ssa.Lookup)
					good := ok && onlyOf(&Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
						if v == ssa.Value(f.Params[i]) {
							return "it"
						}
						return ""
					}}, lk.Index, "it")
					r.at("named", c, "transition", good, "must be named for the outcome")
					if ok {
						nameTable(p, r, pkg, lk.X)
					}
				}
			}
		}
	}
}

// nameTable: a table of names of outcomes names each for what it is, whole table of exit codes too.
func nameTable(p *Prog, r *Report, pkg string, m ssa.Value) {
	ld, ok := m.(*ssa.UnOp)
	if !ok {
		r.ob("named", pkg+" names of outcomes", false, "", "must be a table that is not changed")
		return
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return
	}
	have := mapConsts(p, g)
	for cn, cv := range stateConsts(p, pkg) {
		if outcomeOf[strings.TrimPrefix(pkg, aaW)][cn] == "" {
			continue
		}
		v := have[cv.String()]
		r.ob("named", pkg+" "+g.Name()+" of "+cn, v != nil && v.Kind() == constant.String && constant.StringVal(v) == cn, p.pos(g.Pos()), "must be named "+cn)
	}
}

// mapConsts is what a package variable that is a map of constants is initialised with.
func mapConsts(p *Prog, g *ssa.Global) map[string]constant.Value {
	out := map[string]constant.Value{}
	sts := p.globalStores(g)
	if len(sts) != 1 {
		return out
	}
	mm, ok := sts[0].(*ssa.MakeMap)
	if !ok {
		return out
	}
	for _, ref := range *mm.Referrers() {
		if mu, ok := ref.(*ssa.MapUpdate); ok {
			k, ok1 := mu.Key.(*ssa.Const)
			v, ok2 := mu.Value.(*ssa.Const)
			if ok1 && ok2 && k.Value != nil && v.Value != nil {
				out[k.Value.String()] = v.Value
			}
		}
	}
	return out
}

// transits: running f may start a transition.
func transits(p *Prog, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, c := range callsOf(g) {
			if acts(c) == "transition" {
				return true
			}
			for _, h := range p.callees(c) {
				if fnPkgPath(h) == fnPkgPath(f) && walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// reported: outcomes are reported for what happened.
func reported(p *Prog, r *Report) {
	var cmdDone func(v ssa.Value) bool
	cmdDone = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != ssa.Value(x) && !cmdDone(e) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, stores, known := localStores(p, x.X); known {
					rs, unset := reachingStores(stores, x)
					for _, st := range rs {
						if !cmdDone(st.Val) {
							return false
						}
					}
					return !unset && len(rs) > 0
				}
			}
		}
		if ch := recvChan(v); ch != nil {
			vs := sentOn(p, ch)
			for _, x := range vs {
				if !cmdDone(x) {
					return false
				}
			}
			return len(vs) > 0
		}
		fl := &Flow{P: p, Stop: callSource("CombinedOutput", "Output", "Run", "Wait", "Err", "Start")}
		return onlyOf(fl, v, "result:CombinedOutput", "result:Output", "result:Run", "result:Wait", "result:Err")
	}
	fails := 0
	for _, pkg := range watcherPkgs(p) {
		consts := stateConsts(p, pkg)
		typ := pkg + ".State"
		name := strings.TrimPrefix(pkg, aaW)
		props := pkg + ".Properties."
		// failures
		okErr := map[string]bool{}
		for _, n := range []string{"Error", "UNKNOWN"} {
			if c, ok := consts[n]; ok {
				okErr[c.String()] = true
			}
		}
		a := newSpec(p).facts()
		for _, f := range p.inPkg(pkg) {
			i := resultIdx(f, typ)
			if i < 0 {
				continue
			}
			k := f.Signature.Results().Len() - 1
			if !isErr(f.Signature.Results().At(k).Type()) {
				continue
			}
			t := &interp{p: p, symbols: true}
			for _, ex := range t.run(f, ienv{}) {
				if len(ex.vals) <= k {
					continue
				}
				if sameConst(ex.vals[k], isNil) {
					continue
				}
				// the outcome and the error of the same call
				if c, _ := callOf(ex.ret.Results[i]); c != nil {
					if c2, _ := callOf(ex.ret.Results[k]); c2 == c {
						continue
					}
				}
				if k := symCall(ex.vals[k]); k != "" && k == symCall(ex.vals[i]) {
					continue
				}
				if a.sureNil(ex.ret.Results[k], ex.ret) {
					continue
				}
				fails++
				v := ex.vals[i]
				r.at("failed", ex.ret, "outcome of a failure", v != nil && okErr[v.String()], "must be the one that stands for failures")
			}
		}
		// what was done
		s := newSpec(p)
		s.cond(func(v ssa.Value, o Outcome) []string {
			if !inPkgOf(v, pkg) {
				return nil
			}
			if o == Nil && isErr(v.Type()) && cmdDone(v) {
				return []string{"ran"}
			}
			if x, y, eq, ok := equality(v, o); ok && eq && isErr(x.Type()) {
				if c, isC := y.(*ssa.Const); isC && c.IsNil() && cmdDone(x) {
					return []string{"ran"}
				}
			}
			if ta, ok := v.(*ssa.Extract); ok && o == True {
				if as, ok := ta.Tuple.(*ssa.TypeAssert); ok && cmdDone(as.X) && strings.Contains(as.AssertedType.String(), "os/exec.ExitError") {
					return []string{"ran"}
				}
			}
			return nil
		})
		s.field("nodata", props+"OutputAsData", False)
		s.result("stored", 0, Nil, nil, "(*"+aaM+".Machine).DataPut", "("+modelM+").DataPut", modelM+".DataPut", "(*"+pkg+".Watcher).setOutputAsData")
		s.result("stored", 0, Nil, nil, "("+modelM+").DataDelete", modelM+".DataDelete")
		s.result("moved", 0, Nil, nil, "os.Rename")
		s.result("newer", 0, True, nil, "(time.Time).After")
		s.result("written", 0, Nil, nil, "os.WriteFile")
		s.result("applied", 1, Nil, func(c ssa.CallInstruction) bool { return acts(c) == "applying of a manifest" }, "x")
		s.cond(func(v ssa.Value, o Outcome) []string {
			if c, i := callOf(v); c != nil && i == 1 && o == Nil && acts(c) == "applying of a manifest" {
				return []string{"applied"}
			}
			if c, i := callOf(v); c != nil && i == 0 && o == True && mname(&c.Call) == "evaluateExpression" {
				return []string{"held " + strings.TrimPrefix(loadedField(args(&c.Call)[0]), pkg+".properties.")}
			}
			if x, y, eq, ok := equality(v, o); ok && eq && name == "ccmmanifestwatcher" {
				a, b := loadedField(x), loadedField(y)
				if strings.HasSuffix(a+b, "Resources") && strings.Contains(a+b, ".TotalResources") && strings.Contains(a+b, ".StableResources") {
					return []string{"all stable"}
				}
			}
			if bo, ok := v.(*ssa.BinOp); ok && strings.HasSuffix(loadedField(bo.X)+loadedField(bo.Y), ".TotalErrors") && (o == True || o == False) {
				// does not come out this way with any errors
				for _, n := range []int64{1, 2, 1000} {
					t := &interp{p: p, value: func(v ssa.Value) constant.Value { return nil }}
					e := ienv{}
					for _, x := range []ssa.Value{bo.X, bo.Y} {
						if loadedField(x) != "" {
							e[x] = constant.MakeInt64(n)
						}
					}
					c := t.eval(bo, e, nil)
					if c == nil || c.Kind() != constant.Bool || constant.BoolVal(c) == (o == True) {
						return nil
					}
				}
				return []string{"no errors"}
			}
			if o == True && (loadedField(v) == pkg+".properties.TransitionOnSuccessfulGet" || loadedField(v) == pkg+".properties.TransitionOnMatch") {
				return []string{"asked"}
			}
			return nil
		})
		af := s.facts()
		want := func(cn string, pred func(Set) bool, what string, min int) {
			cv, n := consts[cn], 0
			if cv == nil {
				r.ob("done", pkg+"."+cn, false, "", "the outcome must be known")
				return
			}
			for _, f := range p.inPkg(pkg) {
				if i := resultIdx(f, typ); i >= 0 {
					n += r.returnsConst("done", af, f, i, cv, pred, "outcome "+cn, what)
				}
			}
			r.need("done", "reports of "+cn+" in "+pkg, n, min)
		}
		switch name {
		case "execwatcher":
			want("Success", allOf(has("ran"), anyOf(has("nodata"), has("stored"))), "the command having succeeded, and its output been stored when asked", 1)
		case "filewatcher":
			want("Changed", anyOf(has("moved"), has("newer")), "the file having been replaced, or being newer", 1)
		case "kvwatcher":
			want("Changed", anyOf(has("stored"), has("asked")), "the value having been stored, or transitions being asked for", 2)
		case "ccmmanifestwatcher":
			want("Stable", has("applied", "all stable"), "the manifest having been applied and all resources being stable", 1)
			want("Changes", has("applied", "no errors"), "the manifest having been applied without errors", 1)
		case "expressionwatcher":
			want("SuccessWhen", has("held SuccessWhen"), "the expression for it having held", 1)
			want("FailWhen", has("held FailWhen"), "the expression for it having held", 1)
		case "nagioswatcher":
			// the state is the one of the exit code of a command that ran
			n := 0
			ctx := af.Whole()
			for _, f := range p.inPkg(pkg) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						lk, ok := in.(*ssa.Lookup)
						if !ok {
							continue
						}
						if m, ok := lk.X.Type().Underlying().(*types.Map); !ok || typeName(m.Elem()) != typ {
							continue
						}
						if f.Signature.Recv() == nil && f.Parent() == nil && !(&Flow{P: p, NoDescend: true, Stop: callSource("ExitCode")}).Any(lk.Index, "result:ExitCode") {
							continue
						}
						n++
						r.require("done", ctx, lk, "state of an exit code", has("ran"), "the command having run")
						r.at("done", lk, "state of an exit code", onlyOf(&Flow{P: p, NoDescend: true, Stop: callSource("ExitCode")}, lk.Index, "result:ExitCode"), "must be looked up by the exit code")
						// what is no outcome of a command is reported unknown
						for _, cn := range []string{"SKIPPED", "NOTCHECKED"} {
							cv := consts[cn]
							i := resultIdx(f, typ)
							if cv == nil || i < 0 {
								continue
							}
							t := &interp{p: p, value: func(v ssa.Value) constant.Value {
								if x, ok := v.(*ssa.Extract); ok && x.Tuple == ssa.Value(lk) {
									if x.Index == 0 {
										return cv
									}
									return constant.MakeBool(true)
								}
								return nil
							}}
							bad := ssa.Instruction(nil)
							for _, ex := range t.run(f, ienv{}) {
								if sameConst(ex.vals[i], cv) {
									bad = ex.ret
								}
							}
							r.at("done", orInstr(bad, lk), "exit code that stands for "+cn, bad == nil, "is no outcome of a command, must be reported unknown")
						}
						if ld, ok := lk.X.(*ssa.UnOp); ok {
							if g, ok := ld.X.(*ssa.Global); ok {
								have := mapConsts(p, g)
								for code, cn := range map[string]string{"0": "OK", "1": "WARNING", "2": "CRITICAL", "3": "UNKNOWN"} {
									v := have[code]
									r.ob("done", pkg+" exit code "+code, v != nil && sameConst(v, consts[cn]), p.pos(g.Pos()), "must be "+cn)
								}
							}
						}
					}
				}
			}
			r.need("done", "states of exit codes", n, 1)
		}
	}
	r.need("failed", "failures reported", fails, 30)
}

// sentOn: the values sent on a channel made in the function (or one around it) that uses it, nil when not known.
func sentOn(p *Prog, ch ssa.Value) []ssa.Value {
	made := func(v ssa.Value) ssa.Value {
		var out ssa.Value
		for _, o := range (&Flow{P: p, Stop: func(v ssa.Value) string {
			if _, ok := v.(*ssa.MakeChan); ok {
				return "made"
			}
			return ""
		}}).From(v) {
			if o.Label != "made" || (out != nil && out != o.V) {
				return nil
			}
			out = o.V
		}
		return out
	}
	mc := made(ch)
	if mc == nil {
		return nil
	}
	var out []ssa.Value
	for _, f := range p.Funcs {
		if fnPkgPath(f) != fnPkgPath(mc.Parent()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Send:
					if types.Identical(x.Chan.Type().Underlying(), mc.Type().Underlying()) && made(x.Chan) == mc {
						out = append(out, x.X)
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly && made(s.Chan) == mc {
							out = append(out, s.Send)
						}
					}
				}
			}
		}
	}
	return out
}

// sureNil: an error is nil whenever it is returned here.
func (a *Facts) sureNil(v ssa.Value, ret *ssa.Return) bool {
	return contradicted(v, NonNil, ret.Block(), nil)
}

// machinesFire: events and validation of machines.
func machinesFire(p *Prog, r *Report) {
	s := newSpec(p)
	var event ssa.Value
	s.cond(func(v ssa.Value, o Outcome) []string {
		c, _ := callOf(v)
		if c == nil || o != True || mname(&c.Call) != "Can" || event == nil {
			return nil
		}
		if av := args(&c.Call); len(av) == 1 && sameEvent(p, av[0], event) {
			return []string{"can"}
		}
		return nil
	})
	n := 0
	for _, c := range p.callsTo("(*github.com/looplab/fsm.FSM).Event") {
		if !p.InRepo[c.Parent()] {
			continue
		}
		n++
		event = args(c.Common())[1]
		r.require("fsm", s.facts().Whole(), c, "event fired", has("can"), "the event being possible in the state the machine is in")
	}
	r.need("fsm", "events fired", n, 1)
	for _, f := range p.inPkg(aaM) {
		if f.Name() != "Can" || f.Signature.Recv() == nil {
			continue
		}
		q := newSpec(p)
		q.result("can", 0, True, func(c ssa.CallInstruction) bool {
			return paramOnly(&Flow{P: p, NoCallers: true}, args(c.Common())[0], f, 0)
		}, "(*github.com/looplab/fsm.FSM).Can")
		r.returnsRequire("fsm", q.facts(), f, 0, True, has("can"), "event possible", "the state machine allowing it")
	}

	// only machines that were set up are given out
	q := newSpec(p)
	q.result("set up", 0, Nil, nil, "(*"+aaM+".Machine).Setup")
	q.opaque["(*"+aaM+".Machine).Setup"] = true
	for _, name := range []string{"FromDir", "FromYAML", "FromPlugin"} {
		f := r.anchor("setup", aaM+"."+name)
		if f == nil {
			continue
		}
		n := r.returnsRequire("setup", q.facts(), f, f.Signature.Results().Len()-1, Nil, has("set up"), "machine given", "it having been set up")
		r.need("setup", "machines given by "+name, n, 1)
	}
	z := newSpec(p)
	z.result("valid", 0, Nil, nil, "(*"+aaM+".Machine).Validate")
	z.opaque["(*"+aaM+".Machine).Validate"] = true
	if f := r.anchor("setup", "(*"+aaM+".Machine).Setup"); f != nil {
		r.returnsRequire("setup", z.facts(), f, 0, Nil, has("valid"), "machine set up", "it having been validated")
	}
	if f := r.anchor("valid", "(*"+aaM+".Machine).Validate"); f != nil {
		w := newSpec(p)
		for _, m := range []string{"ParseAnnounceInterval", "ValidateStates", "ValidateTransitions"} {
			w.result(m, 0, Nil, nil, "(*aagent/watchers.WatcherDef)."+m)
			w.opaque["(*aagent/watchers.WatcherDef)."+m] = true
		}
		for _, fld := range []string{"MachineName", "MachineVersion", "InitialState"} {
			w.nonEmpty(fld, aaM+".Machine."+fld)
		}
		a := w.facts()
		r.returnsRequire("valid", a, f, 0, Nil, has("MachineName", "MachineVersion", "InitialState"), "machine valid", "it having a name, version and initial state")
		ls := p.findLoops(f, func(l *loop) bool {
			for b := range l.body {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && p.callReaches(c, "(*aagent/watchers.WatcherDef).ValidateStates") {
						return true
					}
				}
			}
			return false
		})
		r.need("valid", "loops over watchers", len(ls), 1)
		for _, l := range ls {
			r.everyPassFails("valid", a, l, "watchers of the machine", "their states, transitions and interval validated", has("ParseAnnounceInterval", "ValidateStates", "ValidateTransitions"))
			r.alwaysVisits("valid", a, f, l, "watchers of the machine")
		}
	}
	for _, m := range []string{"ValidateStates", "ValidateTransitions"} {
		f := r.anchor("valid", "(*aagent/watchers.WatcherDef)."+m)
		if f == nil {
			continue
		}
		validDefs(p, r, f)
	}
}

// validDefs: every state or transition a watcher names is one of those known.
func validDefs(p *Prog, r *Report, f *ssa.Function) {
	const wd = "aagent/watchers.WatcherDef."
	known := func(v ssa.Value) bool { return paramOnly(&Flow{P: p, NoCallers: true}, v, f, 0) }
	s := newSpec(p)
	which := func(v ssa.Value) []string {
		var out []string
		for _, n := range []string{"StateMatch", "SuccessTransition", "FailTransition"} {
			if onlyOf(&Flow{P: p}, v, "field:"+wd+n) {
				out = append(out, "known "+n)
			}
		}
		return out
	}
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inPkgOf(v, "aagent/watchers") {
			return nil
		}
		if x, empty, ok := emptiness(v, o); ok && empty {
			return which(x)
		}
		if c, _ := callOf(v); c != nil && o == True {
			if n := mname(&c.Call); strings.HasSuffix(n, "Contains") || strings.HasPrefix(n, "StringInList") || strings.HasPrefix(n, "SliceContains") || n == "IsInList" {
				av := args(&c.Call)
				for k := range av {
					if known(av[k]) && len(av) == 2 {
						return which(av[1-k])
					}
				}
			}
			for _, g := range p.callees(c) {
				if fnPkgPath(g) == fnPkgPath(f) {
					av := args(&c.Call)
					list := func(v ssa.Value) bool {
						for j := range av {
							if v == ssa.Value(paramAt(g, j)) && known(av[j]) {
								return true
							}
						}
						return known(v)
					}
					for k := range av {
						if memberTest(p, g, k, list) {
							return which(av[k])
						}
					}
				}
			}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if known(pr[0]) {
					return which(pr[1])
				}
			}
		}
		return nil
	})
	a := s.facts()
	if f.Name() == "ValidateTransitions" {
		r.returnsRequire("valid", a, f, 0, Nil, has("known SuccessTransition", "known FailTransition"), "transitions of a watcher valid", "them being known or not set")
		return
	}
	ls := p.findLoops(f, func(l *loop) bool {
		v, _ := l.visits()
		return v != nil && onlyOf(&Flow{P: p}, v, "field:"+wd+"StateMatch")
	})
	r.need("valid", "loops over states", len(ls), 1)
	for _, l := range ls {
		r.everyPassFails("valid", a, l, "states of the watcher", "each being known", has("known StateMatch"))
		r.alwaysVisits("valid", a, f, l, "states of the watcher")
	}
}

// memberTest: g holds only when its parameter k is empty or equals something known.
func memberTest(p *Prog, g *ssa.Function, k int, known func(v ssa.Value) bool) bool {
	if g.Signature.Results().Len() != 1 || k >= g.Signature.Params().Len() {
		return false
	}
	is := func(v ssa.Value) bool { return paramOnly(&Flow{P: p, NoCallers: true}, v, g, k) }
	from := func(v ssa.Value) bool {
		return known(v) || onlyOf(&Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
			if known(v) {
				return "known"
			}
			return ""
		}}, v, "known")
	}
	q := newSpec(p)
	q.cond(func(v ssa.Value, o Outcome) []string {
		if v.Parent() != g {
			return nil
		}
		if x, empty, ok := emptiness(v, o); ok && empty && is(x) {
			return []string{"known"}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if is(pr[1]) && from(pr[0]) {
					return []string{"known"}
				}
			}
		}
		return nil
	})
	r := quiet(p)
	return r.returnsRequire("x", q.facts(), g, 0, True, has("known"), "", "") > 0 && r.good()
}

// paramAt is parameter k of g, not counting the receiver.
func paramAt(g *ssa.Function, k int) *ssa.Parameter {
	if g.Signature.Recv() != nil {
		k++
	}
	if k < len(g.Params) {
		return g.Params[k]
	}
	return nil
}

// quiet is a report that is only looked at here.
func quiet(p *Prog) *Report {
	return &Report{P: p, Funcs: map[string]bool{}, index: map[string]int{}}
}

func (r *Report) good() bool {
	for _, o := range r.Obs {
		if !o.OK {
			return false
		}
	}
	return true
}

// sameEvent: both are the same parameter or variable.
func sameEvent(p *Prog, a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ka, kb := canonVal(a, 4), canonVal(b, 4)
	return ka != "" && ka == kb
}

// stoppable: what is started while in a state can be stopped once starting it returned.
func stoppable(p *Prog, r *Report) {
	n := 0
	for _, pkg := range watcherPkgs(p) {
		for _, f := range p.inPkg(pkg) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !strings.HasPrefix(fieldKey(fa), pkg+".Watcher.") {
						continue
					}
					if k, isC := st.Val.(*ssa.Const); isC && k.IsNil() {
						continue
					}
					fl := &Flow{P: p, NoCallers: true, Stop: callSource("WithCancel", "WithTimeout", "WithDeadline")}
					if !fl.Any(st.Val, "result:WithCancel") && !fl.Any(st.Val, "result:WithTimeout") && !fl.Any(st.Val, "result:WithDeadline") {
						continue
					}
					n++
					// not from within a goroutine that outlives the call that started it
					spawned := false
					for g := f; g != nil; g = g.Parent() {
						for _, c := range spawns(p, g) {
							if fnPkgPath(c.Parent()) == modPath+"/"+pkg {
								spawned = true
							}
						}
					}
					r.at("stop", st, "means to stop kept", !spawned, "must be kept before what it stops is started, not by that")
				}
			}
		}
	}
	r.need("stop", "means to stop kept", n, 2)
}

// spawns are the go statements that start f.
func spawns(p *Prog, f *ssa.Function) []*ssa.Go {
	var out []*ssa.Go
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if gs, ok := i.(*ssa.Go); ok {
					for _, h := range p.callees(gs) {
						if h == f {
							out = append(out, gs)
						}
					}
				}
			}
		}
	}
	return out
}

// transitions: the basic watcher fires the events it was made with.
func transitions(p *Prog, r *Report) {
	const wf = baseW + ".Watcher."
	fields := map[string]string{}
	for _, m := range []string{"SuccessTransition", "FailureTransition"} {
		f := r.anchor("events", "(*"+baseW+".Watcher)."+m)
		if f == nil {
			continue
		}
		n := 0
		for _, c := range callsOf(f) {
			if acts(c) != "transition" {
				continue
			}
			n++
			for _, l := range (&Flow{P: p, NoCallers: true}).From(args(c.Common())[0]) {
				r.at("events", c, "event fired", strings.HasPrefix(l.Label, "field:"+wf), "must be the one kept for it")
				fields[l.Label] = m
			}
		}
		r.need("events", "events fired by "+m, n, 1)
	}
	r.ob("events", "fields of events", len(fields) == 2, "", "each outcome has its event")
	// kept from what is configured, through all that makes watchers
	for k, m := range fields {
		from := "field:aagent/watchers.WatcherDef.SuccessTransition"
		if m == "FailureTransition" {
			from = "field:aagent/watchers.WatcherDef.FailTransition"
		}
		n := 0
		for _, st := range p.fieldSt[strings.TrimPrefix(k, "field:")] {
			n++
			ls := (&Flow{P: p}).Labels(st.Val)
			bad := ""
			for l := range ls {
				if strings.HasPrefix(l, "field:") && l != from {
					bad = l
				}
			}
			r.at("events", st, "event of "+m, bad == "" && (&Flow{P: p}).Any(st.Val, from), "must be the one configured for it "+bad)
		}
		r.need("events", "events kept for "+m, n, 1)
	}
}

// timers: a timer fires when it ran out, unless it was stopped.
func timers(p *Prog, r *Report) {
	const pkg = aaW + "timerwatcher"
	s := newSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inPkgOf(v, pkg) {
			return nil
		}
		if c, _ := callOf(v); c != nil && o == Nil && mname(&c.Call) == "Err" && strings.Contains(cname(&c.Call), "context") {
			return []string{"not stopped"}
		}
		x, y, eq, ok := equality(v, o)
		if !ok || !eq {
			return nil
		}
		for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
			ex, ok := pr[0].(*ssa.Extract)
			k, ok2 := constInt(pr[1])
			if !ok || !ok2 || ex.Index != 0 {
				continue
			}
			sel, ok := ex.Tuple.(*ssa.Select)
			if !ok || int(k) >= len(sel.States) || k < 0 {
				continue
			}
			if onlyOf(&Flow{P: p}, sel.States[k].Chan, "field:time.Timer.C") {
				return []string{"ran out"}
			}
		}
		return nil
	})
	ctx := s.facts().Whole()
	n := 0
	for _, f := range p.inPkg(pkg) {
		for _, c := range callsOf(f) {
			if acts(c) == "transition" {
				n++
				r.at("timer", c, "transition of a timer", mname(c.Common()) == "FailureTransition", "must be the failure one")
				r.require("timer", ctx, c, "transition of a timer", has("ran out", "not stopped"), "it having run out without being stopped")
			}
		}
	}
	r.need("timer", "transitions of timers", n, 1)
}
