package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const procT = "providers/execution.Process"
const execAgent = "providers/agent/mcorpc/golang/executor"

// storedFields lists the stores to fields of a struct made here, by field.
func storedFields(v ssa.Value) map[string][]*ssa.Store {
	out := map[string][]*ssa.Store{}
	al, ok := allocOf(v)
	if !ok {
		return out
	}
	for _, rf := range *al.Referrers() {
		fa, ok := rf.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, rr := range *fa.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
				n := structField(deref(al.Type()), fa.Field)
				out[n] = append(out[n], st)
			}
		}
	}
	return out
}

// onBehalf: the request authorized is for what made the process, by who sent the request.
func onBehalf(p *Prog, c ssa.CallInstruction, typ string) bool {
	var req ssa.Value
	for _, v := range c.Common().Args {
		if typeName(deref(v.Type())) == typ {
			req = v
		}
	}
	if req == nil {
		return false
	}
	fs := map[string][]*ssa.Store{}
	for _, o := range (&Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
		if _, ok := v.(*ssa.Alloc); ok && typeName(deref(v.Type())) == typ {
			return "made"
		}
		return ""
	}}).From(req) {
		if o.Label != "made" {
			return false
		}
		for k, v := range storedFields(o.V) {
			fs[k] = append(fs[k], v...)
		}
	}
	for name, want := range map[string]string{"Agent": procT + ".Agent", "Action": procT + ".Action", "CallerID": typ + ".CallerID",
		"CallerPublicData": typ + ".CallerPublicData", "SignerPublicData": typ + ".SignerPublicData"} {
		if len(fs[name]) == 0 {
			return false
		}
		for _, st := range fs[name] {
			if !onlyOf(&Flow{P: p}, st.Val, "field:"+want) {
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Check{
		ID: "X01", Level: "proof",
		Rule:        "the signalling of a job and every use of a job's command and arguments in the status of it are reached only after the policy in force authorized, for the caller, caller data and signer data of the request handled, the agent and action that started the job. Jobs are only read from within the spool. No request that was aborted is acted on",
		Explanation: "must-facts on all paths from the actions of the executor agent to the effects; provenance of the fields of the request that is authorized and of the job acted on; path search from every abort to every effect",
		Run: func(p *Prog, r *Report) {
			s := newSpec(p)
			s.result("authorized", 0, True, func(c ssa.CallInstruction) bool { return onBehalf(p, c, mcReq) }, "providers/agent/mcorpc.AuthorizeRequest")
			s.opaque["providers/agent/mcorpc.AuthorizeRequest"] = true
			a := s.facts()
			ctx := a.Whole()
			inAgent := func(i ssa.Instruction) bool {
				return fnPkgPath(i.Parent()) == modPath+"/"+execAgent && !isMock(fnPkgPath(i.Parent()))
			}
			loaded := func(i ssa.Instruction, v ssa.Value, what string) {
				fl := &Flow{P: p, Stop: callSource("Load", "LoadWithChoria", "List", "ListWithChoria")}
				r.at("authorized", i, what+", the job", onlyOf(fl, v, "result:Load", "result:LoadWithChoria", "result:List", "result:ListWithChoria"), "must be one loaded from the spool")
			}
			var effects []ssa.Instruction
			n, m := 0, 0
			for _, c := range p.callsTo("(*"+procT+").Signal", "(*os.Process).Signal", "syscall.Kill", "(*os.Process).Kill") {
				if !inAgent(c) {
					continue
				}
				n++
				effects = append(effects, c)
				r.require("authorized", ctx, c, "signal sent to a job", has("authorized"), "the caller authorized for the agent and action that started the job")
				if cname(c.Common()) == "(*"+procT+").Signal" {
					loaded(c, recvArg(c.Common()), "signal sent")
				}
			}
			for _, f := range p.Funcs {
				if fnPkgPath(f) != modPath+"/"+execAgent || f.Synthetic != "" {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						st, ok := i.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						k := fieldKey(fa)
						if k == "providers/agent/mcorpc.Reply.Data" {
							effects = append(effects, st)
						}
						if !strings.HasPrefix(k, execAgent+".StatusResponse.") && !strings.HasPrefix(k, execAgent+".SignalResponse.") {
							continue
						}
						fl := &Flow{P: p, NoCallers: true, Derive: derive(map[string]int{"strings.Join": 0})}
						ls := fl.Labels(st.Val)
						if ls["field:"+procT+".Command"] || ls["field:"+procT+".Args"] || ls["field:"+procT+".Environment"] {
							m++
							r.require("authorized", ctx, st, "disclosure in "+k[strings.LastIndex(k, ".")+1:], has("authorized"), "the caller authorized for the agent and action that started the job")
						}
					}
				}
			}
			r.need("authorized", "signals", n, 1)
			r.need("authorized", "disclosures", m, 1)

			// aborted requests end
			ab := 0
			aborts := func(i ssa.Instruction) bool {
				return storesStatus(i)
			}
			for _, f := range p.Funcs {
				if fnPkgPath(f) != modPath+"/"+execAgent || f.Synthetic != "" {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if !p.runs(i, aborts, map[*ssa.Function]bool{}) {
							continue
						}
						ab++
						ok, which := true, ssa.Instruction(nil)
						for _, e := range effects {
							if e.Parent() == f && reachableAfter(i, e) {
								ok, which = false, e
							}
						}
						det := "nothing is done for the request afterwards"
						if !ok {
							det = "the request is acted on afterwards, at " + p.ipos(which)
						}
						r.ob("aborted", fname(f)+": abort "+ordinalIn(f, i, func(j ssa.Instruction) bool { return p.runs(j, aborts, map[*ssa.Function]bool{}) }), ok, p.ipos(i), det)
					}
				}
			}
			r.need("aborted", "aborts", ab, 5)

			// jobs come out of the spool
			if f := r.anchor("contained", "providers/execution.Load"); f != nil {
				cs := containedSpec(p, func(v ssa.Value) bool { return paramOnly(&Flow{P: p, NoCallers: true}, v, f, 1) })
				ca := cs.facts()
				cctx := &Ctx{A: ca, Reach: map[*ssa.Function]bool{f: true}, entry: map[*ssa.Function]bool{f: true}}
				k := 0
				calls(f, func(c ssa.CallInstruction) {
					if nameIn(cname(c.Common()), "os.ReadFile", "os.Open", "os.OpenFile") {
						k++
						r.require("contained", cctx, c, "job read", contained, "the id of the job to be local to the spool")
					}
				})
				r.need("contained", "files read", k, 1)
			}
		},
	})

	register(&Check{
		ID: "X02", Level: "proof",
		Rule:        "every program started with (*exec.Cmd).Start is waited for with its Wait on all paths that follow a successful start (a goroutine that always waits included), never with that of the os.Process, which does not wait for its output. Everything read from a pipe of a program is read to its end on all paths. Lines handed to another goroutine are copies. Once a supervised program ended its exit is published and saved on all paths",
		Explanation: "path search from each successful start, each end of a scanner and the wait of the supervisor to the returns; provenance of every reader and of every value sent to a channel",
		Run: func(p *Prog, r *Report) {
			waits := func(of ssa.Value) func(i ssa.Instruction) bool {
				isWait := func(i ssa.Instruction) bool {
					c, ok := i.(ssa.CallInstruction)
					if !ok {
						return false
					}
					if _, isGo := i.(*ssa.Go); isGo {
						return false
					}
					return cname(c.Common()) == "(*os/exec.Cmd).Wait"
				}
				return func(i ssa.Instruction) bool {
					if isWait(i) {
						return true
					}
					if g, ok := i.(*ssa.Go); ok {
						gs := p.callees(g)
						for _, x := range gs {
							if !p.alwaysRuns(x, isWait) {
								return false
							}
						}
						return len(gs) > 0
					}
					return false
				}
			}
			n := 0
			for _, c := range p.callsTo("(*os/exec.Cmd).Start") {
				cl, ok := c.(*ssa.Call)
				if !ok {
					r.at("reaped", c, "program started", false, "in a way that ignores the outcome")
					continue
				}
				n++
				wait := waits(recvArg(c.Common()))
				ok, missed := p.mustPass(cl, cl, 0, Nil, func(i ssa.Instruction) bool { return wait(i) || notStarted(i) }, isReturn)
				det := "waited for on every path"
				if !ok {
					det = "not waited for when the function returns at " + p.ipos(missed)
				}
				r.at("reaped", c, "program started", ok, det)
			}
			r.need("reaped", "programs started", n, 4)
			for _, c := range p.callsTo("(*os.Process).Wait") {
				via := false
				for _, o := range (&Flow{P: p}).From(recvArg(c.Common())) {
					if o.Label == "field:os/exec.Cmd.Process" {
						via = true
					}
				}
				r.at("reaped", c, "wait for a process", !via, "the program must be waited for with its Wait, else its output is not waited for")
			}

			// pipes are read to their end
			k := 0
			for _, sc := range scanners(p) {
				if !sc.pipe {
					continue
				}
				k++
				drains := func(i ssa.Instruction) bool {
					c, ok := i.(ssa.CallInstruction)
					if !ok || !nameIn(cname(c.Common()), "io.Copy", "io.ReadAll", "io/ioutil.ReadAll", "io.CopyBuffer") {
						return false
					}
					arg := c.Common().Args[0]
					if strings.HasPrefix(cname(c.Common()), "io.Copy") {
						arg = c.Common().Args[1]
					}
					return sameOrigins(&Flow{P: p, NoCallers: true}, arg, sc.reader)
				}
				ok, missed := p.mustPass(sc.scan, nil, 0, True, func(i ssa.Instruction) bool {
					return drains(i)
				}, isReturn)
				det := "the remainder is read on every path"
				if !ok {
					det = "a line too long to scan leaves the program blocked on its output, see the return at " + p.ipos(missed)
				}
				r.at("drained", sc.scan, "output of a program", ok, det)
			}
			r.need("drained", "pipes read", k, 3)

			// bytes of a reader's own buffer do not leave the goroutine
			b := 0
			for _, f := range p.Funcs {
				if isMock(fnPkgPath(f)) {
					continue
				}
				for _, blk := range f.Blocks {
					for _, i := range blk.Instrs {
						switch x := i.(type) {
						case *ssa.Send:
							if v := borrowed(p, x.X); holdsBytes(x.X.Type()) {
								b++
								r.at("copied", x, "value sent", v == "", "must not be in the buffer of a reader that is reused: "+v)
							}
						case *ssa.Select:
							for _, st := range x.States {
								if st.Dir == types.SendOnly && holdsBytes(st.Send.Type()) {
									b++
									v := borrowed(p, st.Send)
									r.at("copied", x, "value sent", v == "", "must not be in the buffer of a reader that is reused: "+v)
								}
							}
						}
					}
				}
			}
			r.need("copied", "byte slices sent to channels", b, 1)

			// the end of supervised programs is recorded
			if f := r.anchor("recorded", "(*"+procT+").StartSupervised"); f != nil {
				w := 0
				calls(f, func(c ssa.CallInstruction) {
					cl, ok := c.(*ssa.Call)
					if !ok || cname(&cl.Call) != "(*os/exec.Cmd).Wait" || len(*cl.Referrers()) == 0 {
						return
					}
					w++
					for _, x := range []struct {
						what string
						via  func(i ssa.Instruction) bool
					}{
						{"saved", func(i ssa.Instruction) bool {
							c, ok := i.(*ssa.Call)
							return ok && cname(&c.Call) == "os.WriteFile" && onlyOf(&Flow{P: p, NoCallers: true, NoDescend: true}, c.Call.Args[0], "call:providers/execution.exitPath")
						}},
						{"published", func(i ssa.Instruction) bool {
							c, ok := i.(*ssa.Call)
							return ok && mname(&c.Call) == "Submit"
						}},
					} {
						ok, missed := p.mustPass(cl, nil, 0, True, x.via, isReturn)
						det := "on every path"
						if !ok {
							det = "not so when returning at " + p.ipos(missed)
						}
						r.at("recorded", cl, "exit "+x.what, ok, det)
					}
				})
				r.need("recorded", "waits of the supervisor", w, 1)
			}
		},
	})

	register(&Check{
		ID: "K02", Level: "proof",
		Rule:        "every file that is read line by line (policies, groups, classes, configuration, checksums, node lists) has the error of its scanner looked at on every path after the last line, a failure makes the function fail, and all callers in its package that give errors fail as well, those that give a verdict give no, the others look at the error",
		Explanation: "path search from the end of every scanner that does not read from a program, and from every failure, to the returns",
		Run: func(p *Prog, r *Report) {
			n := 0
			done := map[*ssa.Function]bool{}
			for _, sc := range scanners(p) {
				if sc.pipe {
					continue
				}
				n++
				isErr := func(i ssa.Instruction) bool {
					c, ok := i.(*ssa.Call)
					return ok && cname(&c.Call) == "(*bufio.Scanner).Err" && sameOrigins(&Flow{P: p, NoCallers: true}, recvArg(&c.Call), recvArg(&sc.scan.Call))
				}
				// after the last line, unless the function fails anyhow
				ok, missed := p.mustPass(sc.scan, sc.scan, 0, False, isErr, func(i ssa.Instruction) bool { return isReturn(i) })
				det := "the error of the scanner is looked at"
				if !ok {
					det = "a file that can not be read any further is taken to be complete, see the return at " + p.ipos(missed)
				}
				r.at("whole", sc.scan, "lines read", ok, det)
				f := sc.scan.Parent()
				calls(f, func(c ssa.CallInstruction) {
					if cl, is := c.(*ssa.Call); is && isErr(cl) {
						propagated(p, r, "fails", cl, 0, "failure to read all lines")
					}
				})
				callersFail(p, r, f, done, 0)
			}
			r.need("whole", "files read line by line", n, 5)
		},
	})
}

// notStarted: the instruction only runs when a command has no process, which is never so after a successful start.
func notStarted(i ssa.Instruction) bool {
	b := i.Block()
	if len(b.Preds) != 1 {
		return false
	}
	iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	o := False
	if b.Preds[0].Succs[0] == b {
		o = True
	}
	x, y, eq, ok := equality(iff.Cond, o)
	if !ok || !eq {
		return false
	}
	if c, isC := x.(*ssa.Const); isC && c.IsNil() {
		x, y = y, x
	}
	c, isC := y.(*ssa.Const)
	return isC && c.IsNil() && loadedField(x) == "os/exec.Cmd.Process"
}

func ordinalIn(f *ssa.Function, at ssa.Instruction, is func(i ssa.Instruction) bool) string {
	k := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if !is(i) {
				continue
			}
			k++
			if i == at {
				return strconv.Itoa(k)
			}
		}
	}
	return "?"
}

func holdsBytes(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		b, ok := x.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if _, isS := x.Field(i).Type().Underlying().(*types.Slice); isS && holdsBytes(x.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// borrowed gives what a value, or a byte slice in it, is borrowed from, or "".
func borrowed(p *Prog, v ssa.Value) string {
	vs := []ssa.Value{v}
	if _, isStruct := deref(v.Type()).Underlying().(*types.Struct); isStruct {
		for _, sts := range storedFields(v) {
			for _, st := range sts {
				if holdsBytes(st.Val.Type()) {
					vs = append(vs, st.Val)
				}
			}
		}
	}
	for _, x := range vs {
		if !holdsBytes(x.Type()) {
			continue
		}
		fl := &Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
			if c, i := callOf(v); c != nil && i == 0 && nameIn(cname(&c.Call), "(*bufio.Scanner).Bytes", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine", "(*bufio.Reader).Peek", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next") {
				return "borrowed:" + cname(&c.Call)
			}
			if _, ok := v.(*ssa.Convert); ok {
				return "copy" // string and back
			}
			return ""
		}}
		for l := range fl.Labels(x) {
			if strings.HasPrefix(l, "borrowed:") {
				return l[9:]
			}
		}
	}
	return ""
}

type scanSite struct {
	scan   *ssa.Call
	reader ssa.Value
	pipe   bool
}

// scanners lists the scanners of the repository and what they read.
func scanners(p *Prog) []scanSite {
	var out []scanSite
	for _, c := range p.callsTo("(*bufio.Scanner).Scan") {
		cl, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		s := scanSite{scan: cl}
		fl := &Flow{P: p, NoCallers: true, NoDescend: true}
		for _, o := range fl.From(recvArg(&cl.Call)) {
			nc, _ := callOf(o.V)
			if nc == nil || cname(&nc.Call) != "bufio.NewScanner" {
				continue
			}
			s.reader = nc.Call.Args[0]
			rf := &Flow{P: p, Derive: derive(map[string]int{"io.TeeReader": 0, "io.LimitReader": 0, "bufio.NewReader": 0})}
			for l := range rf.Labels(s.reader) {
				if nameIn(l, "call:io.Pipe", "call:os.Pipe", "call:(*os/exec.Cmd).StdoutPipe", "call:(*os/exec.Cmd).StderrPipe") {
					s.pipe = true
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// propagated: once the error a call gives is set, the function can only return an error.
func propagated(p *Prog, r *Report, rule string, c *ssa.Call, idx int, what string) {
	ok, missed := true, ssa.Instruction(nil)
	t := &pathSearch{call: c, idx: idx, out: NonNil, also: func(v ssa.Value, holds func(v ssa.Value) bool) bool { return madeError(v, holds) || sameErr(v, c) }}
	t.visit = func(i ssa.Instruction, holds func(v ssa.Value) bool) bool {
		ret, is := i.(*ssa.Return)
		if !is {
			return ok
		}
		if len(ret.Results) > 0 {
			last := ret.Results[len(ret.Results)-1]
			if isErr(last.Type()) && holds(last) {
				return ok
			}
		}
		ok, missed = false, i
		return false
	}
	t.from(c)
	det := "the function fails"
	if !ok {
		det = "the function goes on and returns at " + p.ipos(missed)
	}
	r.at(rule, c, what, ok, det)
}

// madeError: an error that is made here, of others or from scratch, so is set.
func madeError(v ssa.Value, holds func(v ssa.Value) bool) bool {
	if !isErr(v.Type()) {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		_, isG := x.X.(*ssa.Global)
		return isG
	case *ssa.Call:
		if nameIn(cname(&x.Call), "fmt.Errorf", "errors.New") {
			return true
		}
		for _, a := range x.Call.Args {
			if isErr(a.Type()) && holds(a) {
				return true
			}
		}
	}
	return false
}

// sameErr: v asks the same thing for its error again.
func sameErr(v ssa.Value, c *ssa.Call) bool {
	x, ok := v.(*ssa.Call)
	return ok && mname(&x.Call) == "Err" && cname(&x.Call) == cname(&c.Call) && len(x.Call.Args) == 1 && x.Call.Args[0] == c.Call.Args[0]
}

// callersFail: callers that give errors fail when f fails.
func callersFail(p *Prog, r *Report, f *ssa.Function, done map[*ssa.Function]bool, depth int) {
	if done[f] || depth > 3 {
		return
	}
	done[f] = true
	res := f.Signature.Results()
	if res.Len() == 0 || !isErr(res.At(res.Len()-1).Type()) {
		return
	}
	for _, s := range p.sites[f] {
		if isMock(fnPkgPath(s.Parent())) || s.Parent().Synthetic != "" {
			continue
		}
		g := s.Parent()
		cl, ok := s.(*ssa.Call)
		if !ok {
			r.at("fails", s, "failure of "+f.Name(), false, "is not looked at")
			continue
		}
		gr := g.Signature.Results()
		if fnPkgPath(g) == fnPkgPath(f) && gr.Len() > 0 && isErr(gr.At(gr.Len()-1).Type()) {
			propagated(p, r, "fails", cl, res.Len()-1, "failure of "+f.Name())
			callersFail(p, r, g, done, depth+1)
			continue
		}
		if b, isB := verdict(gr); isB && b && fnPkgPath(g) == fnPkgPath(f) {
			refused(p, r, "fails", cl, res.Len()-1, "failure of "+f.Name())
			continue
		}
		r.at("fails", cl, "failure of "+f.Name(), looksAt(cl, res.Len()-1), "must be looked at")
	}
}

// verdict: the function gives nothing but a yes or no.
func verdict(rs *types.Tuple) (is, ok bool) {
	if rs.Len() != 1 {
		return false, false
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool, ok
}

// refused: once the error a call gives is set, the function only says no.
func refused(p *Prog, r *Report, rule string, c *ssa.Call, idx int, what string) {
	ok, missed := true, ssa.Instruction(nil)
	t := &pathSearch{call: c, idx: idx, out: NonNil, also: func(v ssa.Value, holds func(v ssa.Value) bool) bool { return madeError(v, holds) || sameErr(v, c) }}
	t.visit = func(i ssa.Instruction, holds func(v ssa.Value) bool) bool {
		ret, is := i.(*ssa.Return)
		if !is {
			return ok
		}
		if b, isC := constBool(ret.Results[0]); isC && !b {
			return ok
		}
		ok, missed = false, i
		return false
	}
	t.from(c)
	det := "the answer is no"
	if !ok {
		det = "the answer may still be yes, at " + p.ipos(missed)
	}
	r.at(rule, c, what, ok, det)
}

// looksAt: the result is used.
func looksAt(c *ssa.Call, idx int) bool {
	if c.Call.Signature().Results().Len() == 1 {
		return len(*c.Referrers()) > 0
	}
	for _, rf := range *c.Referrers() {
		if ex, ok := rf.(*ssa.Extract); ok && ex.Index == idx && len(*ex.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// containedSpec: facts about a name that make a path below a directory joined with it stay below that directory.
func containedSpec(p *Prog, is func(v ssa.Value) bool) *Spec {
	s := newSpec(p)
	s.result("local", 0, True, func(c ssa.CallInstruction) bool { return is(c.Common().Args[0]) }, "path/filepath.IsLocal")
	s.cond(func(v ssa.Value, o Outcome) []string {
		x, y, eq, ok := equality(v, o)
		if !ok {
			if c, isC := v.(*ssa.Call); isC && o == False && nameIn(cname(&c.Call), "strings.Contains", "strings.ContainsAny", "strings.ContainsRune") && is(c.Call.Args[0]) {
				if t, isS := constString(c.Call.Args[1]); isS {
					var fs []string
					if strings.Contains(t, "/") && (len(t) == 1 || mname(&c.Call) == "ContainsAny") {
						fs = append(fs, "base")
					}
					if t == ".." {
						fs = append(fs, "nodots")
					}
					return fs
				}
			}
			return nil
		}
		var fs []string
		for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
			if !is(pr[0]) {
				continue
			}
			if c, _ := callOf(pr[1]); eq && c != nil && nameIn(cname(&c.Call), "path/filepath.Base", "path.Base") && is(c.Call.Args[0]) {
				fs = append(fs, "base")
			}
			if t, isS := constString(pr[1]); isS && !eq && t == ".." {
				fs = append(fs, "nodots")
			}
		}
		return fs
	})
	return s
}

func contained(s Set) bool { return s.has("local") || (s.has("base") && s.has("nodots")) }
