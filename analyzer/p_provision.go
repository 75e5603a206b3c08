package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Provisioning: what may be done to a server that is, or is not, being provisioned.

const (
	provPkg = "providers/agent/mcorpc/golang/provision"
	mcReply = "providers/agent/mcorpc.Reply"
)

// what actions need next to the token: mode is provisioning mode, locked the lock of the provisioner.
var provActions = map[string]struct {
	mode, locked bool
	want         func(Set) bool
	what         string
}{
	"configure":      {true, true, has("mode"), "the server being in provisioning mode"},
	"gencsr":         {true, true, has("mode"), "the server being in provisioning mode"},
	"gen25519":       {true, true, has("mode"), "the server being in provisioning mode"},
	"jwt":            {true, true, has("mode"), "the server being in provisioning mode"},
	"release_update": {true, true, has("mode", "update allowed"), "the server being in provisioning mode and updates being allowed"},
	"reprovision":    {false, false, has("not mode"), "the server not being in provisioning mode"},
	"restart":        {false, false, allOf(anyOf(has("mode"), has("token set")), has("configured")), "provisioning mode or a token being set, and a configuration that does not provision"},
	"shutdown":       {false, false, anyOf(has("mode"), has("token set")), "provisioning mode or a token being set"},
}

func isGlobal(p *Prog, v ssa.Value, name string) bool {
	return onlyOf(&Flow{P: p}, v, "global:"+name)
}

// changesHost are calls that change the machine the server runs on, or the server.
func changesHost(p *Prog, i ssa.Instruction) string {
	switch x := i.(type) {
	case *ssa.Go:
		return "started in the background"
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == mcReply+".Data" {
			return "reply"
		}
	case *ssa.Call:
		n := cname(&x.Call)
		switch n {
		case "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.MkdirAll", "os.Mkdir", "os.CreateTemp", "os.Create", "os.OpenFile", "os.Exit", "syscall.Exec":
			return n[strings.LastIndex(n, "/")+1:]
		}
		if x.Call.StaticCallee() == nil && strings.Contains(x.Call.Signature().String(), "go-updater") {
			return "update"
		}
		if mname(&x.Call) == "NewEvent" {
			return "event"
		}
	}
	return ""
}

func init() {
	register(&Check{
		ID: "V01", Level: "proof",
		Rule:        "everything the actions of the provisioning agent do to a server, and all they disclose, happens only after the request was parsed, the token in it was the one configured, the server was in the mode the action is for, and, for those that configure it, the lock was held for the sender and caller of that request. Nothing is done after an action was aborted or a step of it failed. A new configuration is put in place only when complete and valid, policies only below their directory, received private keys only when encrypted for a key made for this. Settings are relaxed only in provisioning mode, which only servers that know how to be provisioned enter, and only complete provisioning tokens change how",
		Explanation: "must-facts on all paths, through the registered action and all its callers, to each effect; path search from each failed step and abort to the effects; provenance of what is compared",
		Run: func(p *Prog, r *Report) {
			provGates(p, r)
			provLock(p, r)
			provFiles(p, r)
			provMode(p, r)
		},
	})
}

// provSpec: facts about a provisioning request.
func provSpec(p *Prog) *Spec {
	const req = "providers/agent/mcorpc.Request."
	s := newSpec(p)
	theirs := func(v ssa.Value) bool {
		ls := (&Flow{P: p, NoDescend: true, Derive: derive(map[string]int{"strings.TrimSpace": 0})}).Labels(v)
		for l := range ls {
			if !strings.HasPrefix(l, "field:"+provPkg+".") || !strings.HasSuffix(l, "Request.Token") {
				return false
			}
		}
		return len(ls) > 0
	}
	ours := func(v ssa.Value) bool {
		return onlyOf(&Flow{P: p, NoDescend: true, Stop: callSource("ProvisionToken")}, v, "global:build.ProvisionToken", "result:ProvisionToken")
	}
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inPkgOf(v, provPkg) {
			return nil
		}
		if c, _ := callOf(v); c != nil && mname(&c.Call) == "ProvisionMode" {
			switch o {
			case True:
				return []string{"mode"}
			case False:
				return []string{"not mode"}
			}
		}
		if x, empty, ok := emptiness(v, o); ok && ours(x) {
			if empty {
				return []string{"token"}
			}
			return []string{"token set"}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			if ours(x) && theirs(y) || ours(y) && theirs(x) {
				return []string{"token"}
			}
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				c, _ := callOf(pr[0])
				if k, isK := constInt(pr[1]); isK && k == 1 && c != nil && cname(&c.Call) == "crypto/subtle.ConstantTimeCompare" {
					a, b := c.Call.Args[0], c.Call.Args[1]
					if ours(a) && theirs(b) || ours(b) && theirs(a) {
						return []string{"token"}
					}
				}
			}
		}
		if strings.HasSuffix(loadedField(v), ".Provision") && o == False {
			if base := loadedBase(v); base != nil && onlyOf(&Flow{P: p, NoDescend: true, Stop: callSource("NewConfig", "NewSystemConfig")}, rootStruct(base), "result:NewConfig", "result:NewSystemConfig") {
				return []string{"configured"}
			}
		}
		return nil
	})
	s.field("update allowed", "config.ChoriaPluginConfig.ProvisionAllowUpdate", True)
	s.result("parsed", 0, True, nil, "providers/agent/mcorpc.ParseRequestData")
	s.opaque["providers/agent/mcorpc.ParseRequestData"] = true
	s.result("locked", 0, True, func(c ssa.CallInstruction) bool {
		av := args(c.Common())
		return len(av) == 2 && onlyOf(&Flow{P: p}, av[0], "field:"+req+"SenderID") && onlyOf(&Flow{P: p}, av[1], "field:"+req+"CallerID")
	}, provPkg+".lockFor")
	s.opaque[provPkg+".lockFor"] = true
	return s
}

// rootStruct is what a chain of fields is taken from.
func rootStruct(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			if loadedField(x) == "" {
				return v
			}
			v = loadedBase(x)
		default:
			return v
		}
	}
}

// provLockers are the functions that make, of an action, one that is only run with the lock held.
func provLockers(p *Prog, r *Report, ctx *Ctx) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	isAction := func(v ssa.Value) bool { return typeName(v.Type()) == "providers/agent/mcorpc.Action" }
	for _, f := range p.inPkg(provPkg) {
		takes := false
		for _, x := range f.Params {
			takes = takes || isAction(x)
		}
		if !takes {
			continue
		}
		n := 0
		for _, g := range f.AnonFuncs {
			for _, c := range callsOf(g) {
				if c.Common().StaticCallee() == nil && !c.Common().IsInvoke() && isAction(c.Common().Value) {
					n++
					r.require("locked", ctx, c, "action run", has("locked"), "the lock being held for the sender and caller of the request")
				}
			}
		}
		out[f] = n > 0
	}
	return out
}

// lockedBy: the action v is made by a function that only runs it with the lock held.
func lockedBy(p *Prog, v ssa.Value, lockers map[*ssa.Function]bool) bool {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return lockedBy(p, x.X, lockers)
	case *ssa.Call:
		if lockers[x.Call.StaticCallee()] {
			return true
		}
		for _, a := range x.Call.Args {
			if lockedBy(p, a, lockers) {
				return true
			}
		}
	}
	return false
}

// funcsIn are the functions a value is made of, through calls that are given functions.
func funcsIn(v ssa.Value, wrapped bool, visit func(f *ssa.Function, wrapped bool)) {
	switch x := v.(type) {
	case *ssa.Function:
		visit(x, wrapped)
	case *ssa.ChangeType:
		funcsIn(x.X, wrapped, visit)
	case *ssa.MakeInterface:
		funcsIn(x.X, wrapped, visit)
	case *ssa.MakeClosure:
		funcsIn(x.Fn, wrapped, visit)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			funcsIn(a, true, visit)
		}
	}
}

func provGates(p *Prog, r *Report) {
	s := provSpec(p)
	ctx := s.facts().Whole()
	actions := map[string]*ssa.Function{}
	inLock := map[string]bool{}
	lockers := provLockers(p, r, ctx)
	for _, c := range p.callsTo("(*providers/agent/mcorpc.Agent).MustRegisterAction", "(*providers/agent/mcorpc.Agent).RegisterAction") {
		if fnPkgPath(c.Parent()) != modPath+"/"+provPkg {
			continue
		}
		av := args(c.Common())
		name, ok := constString(av[0])
		if !ok {
			r.at("actions", c, "action", false, "must be registered with a constant name")
			continue
		}
		funcsIn(av[1], false, func(f *ssa.Function, _ bool) { actions[name] = f })
		inLock[name] = lockedBy(p, av[1], lockers)
		_, known := provActions[name]
		r.at("actions", c, "action "+name, known && actions[name] != nil, "what it needs must be known")
	}
	r.need("actions", "actions", len(actions), len(provActions))
	// what only one action reaches
	owner := map[*ssa.Function]map[string]bool{}
	var reach func(f *ssa.Function, name string)
	reach = func(f *ssa.Function, name string) {
		if owner[f] == nil {
			owner[f] = map[string]bool{}
		}
		if owner[f][name] || fnPkgPath(f) != modPath+"/"+provPkg {
			return
		}
		owner[f][name] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if _, isGo := i.(*ssa.Go); isGo {
						continue
					}
					for _, g := range p.callees(c) {
						reach(g, name)
					}
				}
			}
		}
	}
	for name, f := range actions {
		reach(f, name)
	}
	does := map[*ssa.Function]bool{}
	var doing func(f *ssa.Function, busy map[*ssa.Function]bool) bool
	doing = func(f *ssa.Function, busy map[*ssa.Function]bool) bool {
		if busy[f] || len(owner[f]) == 0 {
			return false
		}
		busy[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if changesHost(p, i) != "" {
					return true
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c) {
						if doing(g, busy) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for f := range owner {
		does[f] = doing(f, map[*ssa.Function]bool{})
	}
	n := 0
	for _, f := range p.inPkg(provPkg) {
		if len(owner[f]) == 0 || !does[f] {
			continue
		}
		var aborts, effects, steps []ssa.Instruction
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if p.runs(i, storesStatus, map[*ssa.Function]bool{}) {
					aborts = append(aborts, i)
				}
				what := changesHost(p, i)
				shared := ""
				if c, ok := i.(*ssa.Call); ok {
					sig := c.Call.Signature().Results()
					if what == "" {
						for _, g := range p.callees(c) {
							if does[g] {
								shared = short(g.Name())
							}
						}
					}
					if sig.Len() > 0 && isErr(sig.At(sig.Len()-1).Type()) && what != "event" && !nameIn(cname(&c.Call), "os.Remove", "os.Stat", "os.Lstat") {
						steps = append(steps, i)
					}
				}
				if what == "" && shared == "" {
					continue
				}
				effects = append(effects, i)
				if what == "" {
					what = "call of " + shared
				}
				n++
				r.require("token", ctx, i, what, has("token", "parsed"), "the token of the request to match the one configured")
				if len(owner[f]) == 1 {
					for name := range owner[f] {
						k := provActions[name]
						r.require("mode", ctx, i, what+" of "+name, k.want, k.what)
						if k.locked && !inLock[name] {
							r.require("locked", ctx, i, what+" of "+name, has("locked"), "the lock being held for the sender and caller of the request")
						}
					}
				}
			}
		}
		// aborted requests and failed steps end
		for _, i := range aborts {
			if c, ok := i.(*ssa.Call); ok && f.Signature.Results().Len() > 0 && c.Call.StaticCallee() != nil && does[c.Call.StaticCallee()] {
				continue
			}
			bad := ssa.Instruction(nil)
			for _, e := range effects {
				if e != i && reachableAfter(i, e) {
					bad = e
				}
			}
			det := "nothing is done for the request afterwards"
			if bad != nil {
				det = "the request is acted on afterwards, at " + p.ipos(bad)
			}
			r.ob("aborted", fname(f)+": abort "+ordinalIn(f, i, func(j ssa.Instruction) bool { return p.runs(j, storesStatus, map[*ssa.Function]bool{}) }), bad == nil, p.ipos(i), det)
		}
		res := f.Signature.Results()
		for _, i := range steps {
			c := i.(*ssa.Call)
			idx := c.Call.Signature().Results().Len() - 1
			if res.Len() > 0 && isErr(res.At(res.Len()-1).Type()) {
				propagated(p, r, "failed", c, idx, "failed step "+short(mname(&c.Call)))
				continue
			}
			if !tested(c, idx) {
				r.at("failed", c, "failed step "+short(mname(&c.Call)), false, "must be looked at")
				continue
			}
			bad, quietly := ssa.Instruction(nil), ssa.Instruction(nil)
			t := &pathSearch{call: c, idx: idx, out: NonNil}
			t.visit = func(j ssa.Instruction, _ func(ssa.Value) bool) bool {
				if j != ssa.Instruction(c) && p.runs(j, storesStatus, map[*ssa.Function]bool{}) {
					return false
				}
				for _, e := range effects {
					if e == j && j != ssa.Instruction(c) {
						bad = j
						return false
					}
				}
				if isReturn(j) {
					quietly = j
				}
				return true
			}
			t.from(c)
			det := "the request is aborted"
			if bad != nil {
				det = "the request is acted on afterwards, at " + p.ipos(bad)
			} else if quietly != nil {
				det = "ends without the request being aborted, at " + p.ipos(quietly)
			}
			r.at("failed", c, "failed step "+short(mname(&c.Call)), bad == nil && quietly == nil, det)
		}
	}
	r.need("token", "effects", n, 25)

	// the request that is locked for is the one handled
	for _, f := range p.inPkg(provPkg) {
		var lock ssa.CallInstruction
		for _, c := range callsOf(f) {
			if cname(c.Common()) == provPkg+".lockFor" {
				lock = c
			}
		}
		if lock == nil {
			continue
		}
		base := loadedBase(args(lock.Common())[0])
		for _, c := range callsOf(f) {
			if c.Common().StaticCallee() != nil || c.Common().IsInvoke() {
				continue
			}
			for _, a := range c.Common().Args {
				if typeName(deref(a.Type())) == mcReq {
					r.at("locked", c, "request handled", base != nil && rootStruct(base) == a, "must be the one the lock is held for")
				}
			}
		}
	}
}

// tested: the result is looked at.
func tested(c *ssa.Call, idx int) bool {
	return looksAt(c, idx)
}

// provLock: who holds the lock.
func provLock(p *Prog, r *Report) {
	f := r.anchor("lock", provPkg+".lockFor")
	if f == nil {
		return
	}
	key := func(v ssa.Value, g *ssa.Function) bool {
		fl := &Flow{P: p, NoCallers: true, Derive: func(c *ssa.Call) []ssa.Value {
			if cname(&c.Call) == "fmt.Sprintf" {
				return varargs(c.Call.Args[1])
			}
			return nil
		}}
		got := map[string]bool{}
		for _, o := range fl.From(v) {
			if pr, ok := o.V.(*ssa.Parameter); ok && pr.Parent() == g {
				got[pr.Name()] = true
			} else if !strings.HasPrefix(o.Label, "const") && o.Label != "?const" {
				return false
			}
		}
		return len(got) == g.Signature.Params().Len()
	}
	// past the end of the lock: the comparison of what is left of it with nothing
	left := func(v ssa.Value) bool {
		c, _ := callOf(v)
		return c != nil && cname(&c.Call) == "time.Until" && isGlobal(p, c.Call.Args[0], provPkg+".lockedUntil")
	}
	s := newSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inPkgOf(v, provPkg) {
			return nil
		}
		if c, _ := callOf(v); c != nil && (cname(&c.Call) == "(time.Time).After" || cname(&c.Call) == "(time.Time).Before") {
			av := append([]ssa.Value{recvArg(&c.Call)}, args(&c.Call)...)
			un := isGlobal(p, av[0], provPkg+".lockedUntil")
			now := onlyOf(&Flow{P: p, Stop: callSource("Now")}, av[1], "result:Now")
			if !un {
				un = isGlobal(p, av[1], provPkg+".lockedUntil")
				now = onlyOf(&Flow{P: p, Stop: callSource("Now")}, av[0], "result:Now")
				if un && now {
					if (mname(&c.Call) == "Before") == (o == True) {
						return []string{"running"}
					}
					return []string{"over"}
				}
				return nil
			}
			if un && now {
				if (mname(&c.Call) == "After") == (o == True) {
					return []string{"running"}
				}
				return []string{"over"}
			}
		}
		if bo, ok := v.(*ssa.BinOp); ok && (left(bo.X) || left(bo.Y)) {
			// running: more than nothing is left
			vals := map[string]bool{}
			for _, n := range []int64{-1000, -1, 0, 1, 1000} {
				if b, ok := compareWith(bo, left, n); ok && b == (o == True) {
					if n > 0 {
						vals["running"] = true
					} else {
						vals["over"] = true
					}
				}
			}
			if len(vals) == 1 {
				return sortedKeys(vals)
			}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			g := v.Parent()
			if isGlobal(p, x, provPkg+".lockedBy") && key(y, g) || isGlobal(p, y, provPkg+".lockedBy") && key(x, g) {
				return []string{"holder"}
			}
		}
		return nil
	})
	n := r.returnsRequire("lock", s.facts(), f, 0, True, anyOf(has("over"), has("holder")), "lock held", "the lock being over or held by the sender and caller")
	r.need("lock", "locks given", n, 1)
	m := 0
	for _, g := range p.inPkg(provPkg) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				gl, ok := st.Addr.(*ssa.Global)
				if !ok || g.Name() == "init" || (gl.Name() != "lockedBy" && gl.Name() != "lockedUntil") {
					continue
				}
				m++
				r.require("lock", s.facts().Whole(), st, "lock taken, "+gl.Name(), anyOf(has("over"), has("holder")), "the lock being over or held by the sender and caller")
				if gl.Name() == "lockedBy" {
					r.at("lock", st, "holder kept", key(st.Val, g), "must be the sender and caller")
				}
			}
		}
	}
	r.need("lock", "locks taken", m, 2)
	// a lock that is given to someone else is kept for them
	keeps := newSpec(p)
	keeps.cond(s.conds[0])
	keeps.exec(func(i ssa.Instruction) []string {
		if st, ok := i.(*ssa.Store); ok {
			if gl, ok := st.Addr.(*ssa.Global); ok {
				return []string{"kept " + gl.Name()}
			}
		}
		return nil
	})
	r.returnsRequire("lock", keeps.facts(), f, 0, True, allOf(has("kept lockedUntil"), anyOf(has("holder"), has("kept lockedBy"))), "lock held", "it having been kept for the sender and caller")
}

// compareWith evaluates a comparison with what is() accepts being n, and the other side a constant.
func compareWith(bo *ssa.BinOp, is func(v ssa.Value) bool, n int64) (bool, bool) {
	t := &interp{}
	e := ienv{}
	for _, x := range []ssa.Value{bo.X, bo.Y} {
		if is(x) {
			e[x] = constant.MakeInt64(n)
		}
	}
	c := t.eval(bo, e, nil)
	if c == nil || c.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c), true
}

// isKeyOf: v is a key of a map being ranged over, here or in all callers.
func isRangeKey(p *Prog, v ssa.Value, busy map[ssa.Value]bool) bool {
	if busy[v] {
		return true
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		n, ok := x.Tuple.(*ssa.Next)
		return ok && x.Index == 1 && !n.IsString
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isRangeKey(p, e, busy) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			_, sts, ok := localStores(p, al)
			for _, st := range sts {
				if !isRangeKey(p, st.Val, busy) {
					return false
				}
			}
			return ok && len(sts) > 0
		}
	case *ssa.Parameter:
		f := x.Parent()
		n := 0
		for k, fp := range f.Params {
			if fp != x {
				continue
			}
			for _, c := range p.sites[f] {
				if k >= len(c.Common().Args) || !isRangeKey(p, c.Common().Args[k], busy) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

// pathParts are what a path is put together from.
func pathParts(v ssa.Value, visit func(v ssa.Value)) {
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			visit(e)
		}
		return
	case *ssa.BinOp:
		pathParts(x.X, visit)
		pathParts(x.Y, visit)
		return
	case *ssa.MakeInterface:
		pathParts(x.X, visit)
		return
	case *ssa.Call:
		if nameIn(cname(&x.Call), "path/filepath.Join", "path.Join") {
			for _, a := range varargs(x.Call.Args[0]) {
				pathParts(a, visit)
			}
			return
		}
		if cname(&x.Call) == "fmt.Sprintf" {
			for _, a := range varargs(x.Call.Args[1]) {
				pathParts(a, visit)
			}
			return
		}
	}
	visit(v)
}

func provFiles(p *Prog, r *Report) {
	const creq = "field:" + provPkg + ".ConfigureRequest."
	// policies stay below their directory
	isName := func(v ssa.Value) bool { return isRangeKey(p, v, map[ssa.Value]bool{}) }
	cs := containedSpec(p, isName)
	cs.cond(func(v ssa.Value, o Outcome) []string {
		if x, empty, ok := emptiness(v, o); ok && empty && isName(x) {
			return []string{"no name"}
		}
		return nil
	})
	a := cs.facts()
	named := 0
	okName := anyOf(contained, has("no name"))
	for _, c := range p.callsIn(provPkg, "os.WriteFile", "os.Create", "os.OpenFile", "os.MkdirAll", "os.Mkdir", "os.Remove", "os.RemoveAll", "os.Rename") {
		keyed := false
		for _, arg := range args(c.Common()) {
			if arg.Type().String() == "string" {
				pathParts(arg, func(v ssa.Value) { keyed = keyed || isName(v) })
			}
		}
		what := short(mname(c.Common()))
		if strings.HasPrefix(what, "Remove") && mname(c.Common()) == "RemoveAll" {
			fl := &Flow{P: p, Derive: derive(map[string]int{"path/filepath.Dir": 0}), Via: nil}
			ok := true
			for l := range (&Flow{P: p, Derive: func(x *ssa.Call) []ssa.Value {
				if cname(&x.Call) == "path/filepath.Join" {
					return varargs(x.Call.Args[0])
				}
				return fl.Derive(x)
			}}).Labels(args(c.Common())[0]) {
				ok = ok && (strings.HasPrefix(l, "const") || l == "?const" || strings.HasSuffix(l, ".ConfigFile"))
			}
			r.at("policies", c, "directory removed", ok, "must be one next to the configuration file")
		}
		if !keyed {
			continue
		}
		named++
		if a.Whole().Require(c, okName) == nil {
			r.at("policies", c, what+" of what the sender named", true, "the name is within the directory")
			continue
		}
		var names map[string]bool
		for _, arg := range args(c.Common()) {
			if arg.Type().String() == "string" {
				pathParts(arg, func(v ssa.Value) {
					if isName(v) {
						names = (&Flow{P: p}).Labels(v)
					}
				})
			}
		}
		var checked func(at ssa.Instruction, d int) bool
		checked = func(at ssa.Instruction, d int) bool {
			f := at.Parent()
			if d > 3 || fnPkgPath(f) != modPath+"/"+provPkg {
				return false
			}
			for _, l := range p.findLoops(f, func(l *loop) bool {
				if !l.full || l.over.Type().String() != "map[string]string" {
					return false
				}
				ls := (&Flow{P: p}).Labels(l.over)
				for k := range names {
					if !ls[k] {
						return false
					}
				}
				return true
			}) {
				mark := l.head.Instrs[len(l.head.Instrs)-1]
				if l.body[at.Block()] || !p.precededBy(at, func(i ssa.Instruction) bool { return i == mark }) {
					continue
				}
				if g := l.head.Parent(); g != f {
					// the failure of the function with the loop is passed on by f
					r.noWayAround("policies", a, g, l, "names of policies")
				}
				r.everyPassFails("policies", a, l, "names of policies", "a name within the directory", okName)
				return true
			}
			n := 0
			for _, s := range p.sites[f] {
				if !checked(s, d+1) {
					return false
				}
				n++
			}
			return n > 0
		}
		if !checked(c, 0) {
			r.at("policies", c, what+" of what the sender named", false, "nothing makes sure the name is within the directory")
		}
	}
	r.need("policies", "uses of names", named, 1)

	// private keys are only accepted when encrypted for us
	s := newSpec(p)
	s.result("encrypted", 0, True, nil, "crypto/x509.IsEncryptedPEMBlock")
	shared := func(v ssa.Value) bool {
		return onlyOf(&Flow{P: p, NoCallers: true, Stop: callSource("ECDHSharedSecret")}, v, "result:ECDHSharedSecret")
	}
	s.result("decrypted", 1, Nil, func(c ssa.CallInstruction) bool { return shared(c.Common().Args[1]) }, "crypto/x509.DecryptPEMBlock")
	n := 0
	for _, c := range p.callsIn(provPkg, "os.WriteFile", "(*os.File).Write", "(*os.File).WriteString", "fmt.Fprintf", "fmt.Fprint") {
		data := c.Common().Args[len(c.Common().Args)-1]
		if mname(c.Common()) == "WriteFile" {
			data = c.Common().Args[1]
		}
		direct := &Flow{P: p, Derive: derive(map[string]int{"strings.TrimSpace": 0})}
		r.at("keys", c, "data written", !direct.Labels(data)[creq+"Key"], "the key received must not be stored as it is")
		fl := &Flow{P: p, Stop: callSource("DecryptPEMBlock")}
		fl.Derive = func(x *ssa.Call) []ssa.Value {
			if nameIn(cname(&x.Call), "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String") {
				var vs []ssa.Value
				for _, e := range callsOf(x.Parent()) {
					if cname(e.Common()) == "encoding/pem.Encode" && sameBuf(e.Common().Args[0], recvArg(&x.Call)) {
						vs = append(vs, storedIn(e.Common().Args[1], "Bytes")...)
					}
				}
				return vs
			}
			if cname(&x.Call) == "encoding/pem.EncodeToMemory" {
				return storedIn(x.Call.Args[0], "Bytes")
			}
			return nil
		}
		if fl.Labels(data)["result:DecryptPEMBlock"] {
			n++
			r.at("keys", c, "key written", onlyOf(fl, data, "result:DecryptPEMBlock"), "must be the one decrypted")
			if v := constFileMode(c); v >= 0 {
				r.at("keys", c, "key readable", v&0o077 == 0, "by the owner only")
			}
		}
	}
	r.need("keys", "keys written", n, 1)
	if f := r.anchor("keys", provPkg+".decryptPrivateKey"); f != nil {
		n := r.returnsRequire("keys", s.facts(), f, 1, Nil, has("encrypted", "decrypted"), "key accepted", "it being encrypted with the secret shared with the sender")
		r.need("keys", "keys accepted", n, 1)
	}
	for _, c := range p.callsIn(provPkg, "choria.ECDHSharedSecret") {
		av := args(c.Common())
		r.at("keys", c, "secret", isGlobal(p, av[0], provPkg+".ecdhPrivate"), "must be made with the key of this server")
	}
	fresh := newSpec(p)
	fresh.result("fresh", 2, Nil, nil, "choria.ECDHKeyPair")
	m := 0
	for _, f := range p.inPkg(provPkg) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && (g.Name() == "ecdhPrivate" || g.Name() == "ecdhPublic") && f.Name() != "init" {
					want := 1
					if g.Name() == "ecdhPrivate" {
						want = 0
					}
					c, idx := callOf(st.Val)
					r.at("keys", st, "stored "+g.Name(), c != nil && cname(&c.Call) == "choria.ECDHKeyPair" && idx == want, "must be of a new pair")
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fieldKey(fa), "Reply.ECDHPublic") {
					continue
				}
				m++
				r.require("keys", fresh.facts().Whole(), st, "key disclosed", has("fresh"), "a pair made for this request")
				r.at("keys", st, "key disclosed", onlyOf(&Flow{P: p, Derive: func(x *ssa.Call) []ssa.Value {
					if nameIn(cname(&x.Call), "fmt.Sprintf") {
						return varargs(x.Call.Args[1])
					}
					if nameIn(cname(&x.Call), "encoding/hex.EncodeToString") {
						return x.Call.Args[:1]
					}
					return nil
				}}, st.Val, "global:"+provPkg+".ecdhPublic"), "must be the public one")
			}
		}
	}
	r.need("keys", "keys disclosed", m, 1)

	// a new key makes the token for the old one useless: it goes first
	st := newSpec(p)
	st.result("none", 0, False, nil, "internal/util.FileExist", "choria.FileExist")
	st.result("removed", 0, Nil, nil, "os.Remove")
	q := 0
	for _, c := range p.callsIn(provPkg, "os.WriteFile") {
		seed := false
		fl := &Flow{P: p, Stop: callSource("Seed"), Derive: derive(map[string]int{"encoding/hex.EncodeToString": 0})}
		seed = fl.Labels(c.Common().Args[1])["result:Seed"]
		if !seed {
			continue
		}
		q++
		r.require("keys", st.facts().Whole(), c, "new key stored", anyOf(has("none"), has("removed")), "no token for an earlier key being there")
		r.at("keys", c, "key readable", constFileMode(c)&0o077 == 0, "by the owner only")
	}
	r.need("keys", "new keys stored", q, 1)

	// configurations
	k := 0
	for _, c := range p.callsIn(provPkg, "os.Rename") {
		k++
		src := args(c.Common())[0]
		call, _ := callOf(src)
		tmp := call != nil && cname(&call.Call) == "(*os.File).Name"
		r.at("config", c, "new configuration", tmp, "must be a complete temporary file that is moved in place")
		if !tmp {
			continue
		}
		file := recvArg(&call.Call)
		same := func(v ssa.Value) bool {
			x, _ := callOf(v)
			return x != nil && cname(&x.Call) == "(*os.File).Name" && sameOrigins(&Flow{P: p, NoDescend: true}, recvArg(&x.Call), file)
		}
		v := newSpec(p)
		v.result("valid", 1, Nil, func(c ssa.CallInstruction) bool { return same(c.Common().Args[0]) }, "config.NewConfig")
		v.result("closed", 0, Nil, func(c ssa.CallInstruction) bool {
			return sameOrigins(&Flow{P: p, NoDescend: true}, recvArg(c.Common()), file)
		}, "(*os.File).Close")
		r.require("config", v.facts().Whole(), c, "new configuration in place", has("valid", "closed"), "it being completely written and valid")
		f := c.Parent()
		found := 0
		for _, l := range p.findLoops(f, func(l *loop) bool {
			return l.over != nil && l.over.Type().String() == "map[string]string"
		}) {
			found++
			w := newSpec(p)
			w.execCall("written", func(c ssa.CallInstruction) bool { return c.Parent() != f || l.body[c.Block()] }, "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "(*os.File).WriteString", "(*os.File).Write")
			r.at("config", l.head.Instrs[0], "all settings", l.full, "must be gone over")
			r.everyPassFails("config", w.facts(), l, "settings", "it being written", has("written"))
			r.alwaysVisits("config", w.facts(), f, l, "settings")
		}
		r.need("config", "passes over the settings", found, 1)
	}
	r.need("config", "configurations put in place", k, 1)
}

func sameBuf(a, b ssa.Value) bool {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	return a == b
}

// storedIn are the values stored in a field of the struct that v points to.
func storedIn(v ssa.Value, field string) []ssa.Value {
	var out []ssa.Value
	if v.Referrers() == nil {
		return nil
	}
	for _, i := range *v.Referrers() {
		fa, ok := i.(*ssa.FieldAddr)
		if !ok || !strings.HasSuffix(fieldKey(fa), "."+field) {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

// constFileMode is the mode a file is made with, -1 when not known.
func constFileMode(c ssa.CallInstruction) int64 {
	for _, a := range c.Common().Args {
		if strings.HasSuffix(a.Type().String(), "fs.FileMode") || strings.HasSuffix(a.Type().String(), "os.FileMode") {
			if n, ok := constInt(a); ok {
				return n
			}
			return 0o777
		}
	}
	return -1
}

func provMode(p *Prog, r *Report) {
	// when a server is in provisioning mode
	hasOpt := func(v ssa.Value) bool {
		c, _ := callOf(v)
		if c == nil || mname(&c.Call) != "HasOption" {
			return false
		}
		t, ok := constString(args(&c.Call)[0])
		return ok && t == "plugin.choria.server.provision"
	}
	s := newSpec(p)
	s.field("server", "config.Config.InitiatedByServer", True)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inPkgOf(v, "choria") {
			return nil
		}
		if hasOpt(v) && o == False {
			return []string{"not configured"}
		}
		if x, empty, ok := emptiness(v, o); ok && !empty {
			for _, n := range []string{"ProvisionBrokerURLs", "ProvisionJWTFile", "ProvisionToken"} {
				if onlyOf(&Flow{P: p, NoDescend: true, Stop: callSource(n)}, x, "result:"+n) {
					return []string{"a provisioner"}
				}
			}
		}
		if loadedField(v) == "config.ChoriaPluginConfig.Provision" && o == True {
			return []string{"configured to"}
		}
		return nil
	})
	fn := "(*choria.Framework).ProvisionMode"
	if f := r.anchor("mode", fn); f != nil {
		n := r.returnsRequire("mode", s.facts(), f, 0, True, allOf(has("server", "a provisioner"), anyOf(has("not configured"), has("configured to"))), "provisioning mode", "a server that knows of a provisioner and is not configured otherwise")
		r.need("mode", "ways into provisioning mode", n, 2)
	}
	// what provisioning mode changes
	m := newSpec(p)
	m.result("mode", 0, True, nil, fn)
	m.result("not mode", 0, False, nil, fn)
	m.opaque[fn] = true
	settings := map[string]func(v ssa.Value) bool{
		"config.Config.Collectives": func(v ssa.Value) bool {
			ls := literals(p, v)
			return len(ls) == 1 && ls[0] == "provisioning"
		},
		"config.Config.MainCollective":                    func(v ssa.Value) bool { t, ok := constString(v); return ok && t == "provisioning" },
		"config.ChoriaPluginConfig.FederationCollectives": func(v ssa.Value) bool { return len(literals(p, v)) == 0 },
		"config.Config.Registration":                      nil,
		"config.ChoriaPluginConfig.NatsUser":              nil,
		"config.ChoriaPluginConfig.NatsPass":              nil,
		"config.ChoriaPluginConfig.SecurityProvider":      nil,
		"config.Config.RPCAuthorization":                  nil,
	}
	m.exec(func(i ssa.Instruction) []string {
		st, ok := i.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		if _, known := settings[fieldKey(fa)]; known {
			return []string{"set " + fieldKey(fa)}
		}
		return nil
	})
	if f := r.anchor("mode", "(*choria.Framework).ConfigureProvisioning"); f != nil {
		ctx := m.facts().Whole()
		n := 0
		var in func(g *ssa.Function, d int)
		in = func(g *ssa.Function, d int) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						if c, ok := i.(*ssa.Call); ok && d < 3 {
							if h := c.Call.StaticCallee(); h != nil && fnPkgPath(h) == fnPkgPath(f) && mname(&c.Call) != "ProvisionMode" && mname(&c.Call) != "setupSecurity" {
								in(h, d+1)
							}
						}
						continue
					}
					what := ""
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldKey(fa), "config.") {
						what = fieldKey(fa)
						if is := settings[what]; is != nil {
							r.at("mode", st, "value of "+what, is(st.Val), "must be the one for provisioning")
						}
					}
					if gl, ok := st.Addr.(*ssa.Global); ok {
						what = gl.Name()
					}
					if what == "" {
						continue
					}
					n++
					r.require("mode", ctx, st, what+" changed", has("mode"), "provisioning mode")
				}
			}
		}
		in(f, 0)
		r.need("mode", "settings changed", n, 15)
		for _, k := range sortedKeys(settings) {
			k := k
			for _, ret := range m.facts().returns(f) {
				r.require("mode", m.facts().From(f), ret, "configured, "+k, anyOf(has("not mode"), has("set "+k)), "it being set in provisioning mode")
			}
		}
	}
	// relaxations elsewhere
	relaxed := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				what := ""
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "config.Config.RPCAuthorization" {
					if v, ok := constBool(st.Val); !ok || !v {
						what = "authorization turned off"
					}
				}
				if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/protocol") && g.Name() == "Secure" && f.Name() != "init" {
					if v, ok := constString(st.Val); !ok || v != "true" {
						what = "protocol security turned off"
					}
				}
				if what == "" {
					continue
				}
				// the constructor of default configurations for tests
				if fname(f) == "config.NewConfigForTests" {
					continue
				}
				relaxed++
				r.require("relaxed", m.facts().Whole(), st, what, has("mode"), "provisioning mode")
			}
		}
	}
	r.need("relaxed", "relaxed settings", relaxed, 2)

	// what tokens change
	provToken(p, r)

	// what only runs when provisioned
	for _, k := range []struct{ call, what string }{
		{"(*aagent.AAgent).ManageMachines", "autonomous agents"},
		{"providers/data.NewManager", "data providers"},
	} {
		n := 0
		for _, c := range p.callsTo(k.call) {
			if fnPkgPath(c.Parent()) != modPath+"/server" {
				continue
			}
			n++
			x := newSpec(p)
			x.result("not mode", 0, False, nil, fn, "(inter.Framework).ProvisionMode")
			x.opaque[fn] = true
			r.require("running", x.facts().Whole(), c, k.what, has("not mode"), "not being in provisioning mode")
		}
		r.need("running", k.what, n, 1)
	}
	// who has the agent
	n := 0
	for _, c := range p.callsTo("(*providers/agent/mcorpc.Agent).SetActivationChecker") {
		if fnPkgPath(c.Parent()) != modPath+"/"+provPkg {
			continue
		}
		funcsIn(args(c.Common())[0], false, func(g *ssa.Function, _ bool) {
			x := newSpec(p)
			x.result("supported", 0, True, nil, "(*choria.Framework).SupportsProvisioning", "(inter.Framework).SupportsProvisioning")
			n += r.returnsRequire("running", x.facts(), g, 0, True, has("supported"), "agent active", "provisioning being supported")
		})
	}
	r.need("running", "activation of the agent", n, 1)
}

func provToken(p *Prog, r *Report) {
	f := r.anchor("token settings", "providers/provtarget/builddefaults.SetBuildBasedOnJWT")
	if f == nil {
		return
	}
	const cl = "tokens.ProvisioningClaims."
	s := newSpec(p)
	s.result("parsed", 1, Nil, nil, "tokens.ParseProvisionTokenUnverified", "tokens.ParseProvisioningToken")
	s.opaque["tokens.ParseProvisionTokenUnverified"] = true
	s.nonEmpty("has token", cl+"Token")
	s.nonEmpty("has domain", cl+"SRVDomain")
	s.nonEmpty("has urls", cl+"URLs")
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inPkgOf(v, "providers/provtarget/builddefaults") {
			return nil
		}
		if x, empty, ok := emptiness(v, o); ok && empty {
			switch loadedField(x) {
			case cl + "SRVDomain":
				return []string{"no domain"}
			case cl + "URLs":
				return []string{"no urls"}
			}
		}
		if k := loadedField(v); k == cl+"Secure" || k == cl+"ProvDefault" {
			return []string{strings.TrimPrefix(k, cl) + " " + o.String()}
		}
		return nil
	})
	from := map[string]string{
		"SetProvisionBrokerURLs": "URLs", "SetProvisionToken": "Token", "SetProvisionBrokerSRVDomain": "SRVDomain",
		"SetProvisionUsingVersion2": "ProtoV2", "SetProvisionAllowServerUpdate": "AllowUpdate", "SetProvisionFacts": "ProvFacts",
		"SetProvisionRegistrationData": "ProvRegData", "SetProvisioningBrokerUsername": "ProvNatsUser", "SetProvisioningBrokerPassword": "ProvNatsPass",
	}
	on := map[string]string{
		"EnableProvisionModeAsDefault": "ProvDefault " + True.String(), "DisableProvisionModeAsDefault": "ProvDefault " + False.String(),
		"EnableProvisionModeSecurity": "Secure " + True.String(), "DisableProvisionModeSecurity": "Secure " + False.String(),
	}
	complete := allOf(has("parsed", "has token"), anyOf(has("has domain", "no urls"), has("no domain", "has urls")))
	n := 0
	for _, g := range p.Funcs {
		for _, c := range callsOf(g) {
			name := mname(c.Common())
			h := c.Common().StaticCallee()
			if h == nil || fnPkgPath(h) != modPath+"/build" {
				continue
			}
			if fld, ok := from[name]; ok {
				n++
				r.at("token settings", c, name, loadedField(args(c.Common())[0]) == cl+fld, "must be what the token says")
			} else if w, ok := on[name]; ok {
				n++
				r.require("token settings", s.facts().Whole(), c, name, has(w), "the token saying so")
			} else {
				continue
			}
			r.require("token settings", s.facts().Whole(), c, name, complete, "a token that parses and has a secret and either brokers or a domain")
		}
	}
	r.need("token settings", "settings", n, 10)
	// both security levels are set
	must := newSpec(p)
	must.cond(s.conds[len(s.conds)-1])
	must.execCall("secured", nil, "(*build.Info).EnableProvisionModeSecurity")
	must.execCall("unsecured", nil, "(*build.Info).DisableProvisionModeSecurity")
	must.execCall("token", nil, "(*build.Info).SetProvisionToken")
	r.returnsRequire("token settings", must.facts(), f, 1, Nil, allOf(has("token"), anyOf(has("secured"), has("unsecured"))), "settings applied", "the secret and the level of security being set")
}
