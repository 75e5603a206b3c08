package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const extA = "providers/agent/mcorpc/external."

func storesStatus(i ssa.Instruction) bool {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || fieldKey(fa) != "providers/agent/mcorpc.Reply.Statuscode" {
		return false
	}
	n, isN := constInt(st.Val)
	return isN && n != 0
}

// execs lists the places programs are prepared for execution in a package.
func (p *Prog) execs(pkg string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, c := range p.callsTo("os/exec.CommandContext", "os/exec.Command") {
		if fnPkgPath(c.Parent()) == modPath+"/"+pkg {
			out = append(out, c)
		}
	}
	return out
}

func init() {
	register(&Check{
		ID: "A04", Level: "proof",
		Rule:        "the program of an external agent is only prepared for a request after the data of that request validated against the action it names, of the DDL of that agent, or for an activation check. The action ends either with the program having run, its reply decoded and defaults set, or aborted; running succeeds only when the program started, exited with 0 and its reply was read from its own file and decoded. The request given to external and Ruby programs is made of the fields of the request handled, the command is that of the agent, and the time it may take is limited",
		Explanation: "must-facts on all paths to the preparation of programs and to the returns of the action; provenance of the request fields, the command and the reply",
		Run: func(p *Prog, r *Report) {
			s := newSpec(p)
			reqField := func(v ssa.Value, name string) bool {
				return onlyOf(&Flow{P: p}, v, "field:"+mcReq+"."+name)
			}
			s.result("validated", 1, Nil, func(c ssa.CallInstruction) bool {
				if !reqField(args(c.Common())[0], "Data") {
					return false
				}
				rc := recvArg(c.Common())
				fl := &Flow{P: p, NoCallers: true, Stop: callSource("ActionInterface")}
				if !onlyOf(fl, rc, "result:ActionInterface") {
					return false
				}
				for _, o := range fl.From(rc) {
					ai, _ := callOf(o.V)
					if ai == nil {
						continue
					}
					if !reqField(args(&ai.Call)[0], "Action") {
						return false
					}
					df := &Flow{P: p, Stop: callSource("agentDDL")}
					if !onlyOf(df, recvArg(&ai.Call), "result:agentDDL") {
						return false
					}
				}
				return true
			}, "(*"+ddlA+"Action).ValidateRequestJSON")
			s.opaque["(*"+ddlA+"Action).ValidateRequestJSON"] = true
			s.execCall("activation", func(c ssa.CallInstruction) bool {
				return strings.HasSuffix(typeName(deref(unIface(c.Common().Args[0]).Type())), "ActivationCheck")
			}, "encoding/json.Marshal")
			a := s.facts()
			ctx := a.Whole()
			es := p.execs("providers/agent/mcorpc/external")
			for _, c := range es {
				r.require("validated", ctx, c, "program of the agent", anyOf(has("validated"), has("activation")), "the request data validated against the DDL, or an activation check")
				command(p, r, c)
				limited(p, r, c)
			}
			r.need("validated", "programs prepared", len(es), 1)

			// the DDL is that of the agent
			n := 0
			for _, c := range p.callsTo("(*" + extA + "Provider).agentDDL") {
				n++
				ok := onlyOf(&Flow{P: p, NoCallers: true, Stop: callSource("Name")}, args(c.Common())[0], "result:Name", "field:server/agents.Metadata.Name")
				r.at("validated", c, "DDL used", ok, "must be that of the agent handling the request")
			}
			r.need("validated", "DDLs looked up", n, 1)
			if f := r.anchor("validated", "(*"+extA+"Provider).agentDDL"); f != nil {
				ss := newSpec(p)
				ss.cond(func(v ssa.Value, o Outcome) []string {
					if x, y, eq, ok := equality(v, o); ok && eq {
						for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
							if loadedField(pr[0]) == "server/agents.Metadata.Name" && paramOnly(&Flow{P: p, NoCallers: true}, pr[1], f, 0) {
								return []string{"named"}
							}
						}
					}
					return nil
				})
				r.need("validated", "lookups that succeed", r.returnsRequire("validated", ss.facts(), f, 1, True, has("named"), "DDL found", "its name being the one asked for"), 1)
			}

			outcome(p, r)
			requestFields(p, r, extA+"Request", 10)
			requestFields(p, r, "providers/agent/mcorpc/ruby.ShimRequest", 9)
			requestFields(p, r, "providers/agent/mcorpc/ruby.ShimRequestBody", 5)
			for _, c := range p.execs("providers/agent/mcorpc/ruby") {
				limited(p, r, c)
			}
		},
	})
}

func unIface(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return v
}

// command: the program run is the one found for the agent.
func command(p *Prog, r *Report, c ssa.CallInstruction) {
	i := 1
	if mname(c.Common()) == "Command" {
		i = 0
	}
	fl := &Flow{P: p, Stop: callSource("agentPath")}
	r.at("program", c, "command", onlyOf(fl, c.Common().Args[i], "result:agentPath"), "must be the program of the agent")
	for _, o := range fl.From(c.Common().Args[i]) {
		pc, _ := callOf(o.V)
		if pc == nil || mname(&pc.Call) != "agentPath" {
			continue
		}
		av := args(&pc.Call)
		nf := &Flow{P: p, NoCallers: true, NoDescend: true}
		r.at("program", pc, "name of the program", onlyOf(nf, av[0], "field:server/agents.Metadata.Name", "call:(*providers/agent/mcorpc.Agent).Name"), "must be the name of the agent")
		df := &Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
			if lk, ok := v.(*ssa.Lookup); ok && loadedField(lk.X) == extA+"Provider.paths" {
				return "paths"
			}
			return ""
		}}
		r.at("program", pc, "directory of the program", onlyOf(df, av[1], "paths", "field:"+ddlA+"DDL.SourceLocation"), "must be where the DDL of the agent is")
	}
}

// limited: the program gets a context that ends.
func limited(p *Prog, r *Report, c ssa.CallInstruction) {
	ok := mname(c.Common()) == "CommandContext" && onlyOf(&Flow{P: p, Stop: callSource("WithTimeout", "WithDeadline")}, c.Common().Args[0], "result:WithTimeout", "result:WithDeadline")
	r.at("limited", c, "time the program may take", ok, "must be limited")
}

// outcome: an action has run its program successfully, or is aborted.
func outcome(p *Prog, r *Report) {
	f := r.anchor("outcome", "(*"+extA+"Provider).externalAction")
	ex := r.anchor("outcome", "(*"+extA+"Provider).executeRequest")
	if f == nil || ex == nil {
		return
	}
	s := newSpec(p)
	s.exec(func(i ssa.Instruction) []string {
		if storesStatus(i) {
			return []string{"aborted"}
		}
		return nil
	})
	s.result("ran", 0, Nil, nil, fname(ex))
	s.opaque[fname(ex)] = true
	s.result("defaults", 0, Nil, nil, "(*"+extA+"Provider).setReplyDefaults")
	s.opaque["(*"+extA+"Provider).setReplyDefaults"] = true
	a := s.facts()
	ctx := &Ctx{A: a, Reach: map[*ssa.Function]bool{f: true}, entry: map[*ssa.Function]bool{f: true}}
	n := 0
	for _, ret := range a.returns(f) {
		n++
		r.require("outcome", ctx, ret, "end of the action", anyOf(has("aborted"), has("ran", "defaults")), "the request aborted, or the program having run and the defaults set")
	}
	r.need("outcome", "returns of the action", n, 1)

	s = newSpec(p)
	s.result("started", 0, Nil, nil, "(*os/exec.Cmd).Start")
	s.result("started", 0, Nil, nil, "(*os/exec.Cmd).Run")
	s.result("exited-0", 0, Nil, nil, "(*os/exec.Cmd).Run")
	s.result("exited-0", 0, Nil, nil, "(*os/exec.Cmd).Wait")
	s.result("exited-0", 0, True, nil, "(*os.ProcessState).Success")
	s.cond(func(v ssa.Value, o Outcome) []string {
		if x, y, eq, ok := equality(v, o); ok && eq {
			c, isC := x.(*ssa.Call)
			n, isN := constInt(y)
			if isC && isN && n == 0 && cname(&c.Call) == "(*os.ProcessState).ExitCode" {
				return []string{"exited-0"}
			}
		}
		return nil
	})
	temp := func(v ssa.Value) map[ssa.Value]bool {
		// the temporary files a name belongs to
		out := map[ssa.Value]bool{}
		fl := &Flow{P: p, NoCallers: true, Stop: callSource("CreateTemp"), Derive: func(c *ssa.Call) []ssa.Value {
			if cname(&c.Call) == "(*os.File).Name" {
				return c.Call.Args[:1]
			}
			return nil
		}}
		for _, o := range fl.From(v) {
			if o.Label == "result:CreateTemp" {
				c, _ := callOf(o.V)
				out[c] = true
			} else {
				out[o.V] = true
			}
		}
		return out
	}
	// the reply file is the one named to the program as such: its second file argument
	var given map[ssa.Value]bool
	calls(ex, func(c ssa.CallInstruction) {
		if nameIn(cname(c.Common()), "os/exec.CommandContext", "os/exec.Command") {
			last := c.Common().Args[len(c.Common().Args)-1]
			if sl, ok := last.(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					for _, rf := range *al.Referrers() {
						ia, ok := rf.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						if k, isK := constInt(ia.Index); !isK || k != 1 {
							continue
						}
						for _, rr := range *ia.Referrers() {
							if st, ok := rr.(*ssa.Store); ok {
								given = temp(st.Val)
							}
						}
					}
				}
			}
		}
	})
	s.result("decoded", 0, Nil, func(c ssa.CallInstruction) bool {
		av := c.Common().Args
		fl := &Flow{P: p, NoCallers: true, Stop: callSource("ReadFile")}
		if !onlyOf(fl, av[0], "result:ReadFile") || !paramNamed(p, av[1], ex, "reply") {
			return false
		}
		for _, o := range fl.From(av[0]) {
			rc, _ := callOf(o.V)
			if rc == nil {
				continue
			}
			t := temp(rc.Call.Args[0])
			if len(t) != 1 || len(given) != 1 {
				return false
			}
			for k := range t {
				if !given[k] {
					return false
				}
			}
		}
		return true
	}, "encoding/json.Unmarshal")
	r.need("outcome", "successful runs", r.returnsRequire("outcome", s.facts(), ex, 0, Nil, has("started", "exited-0", "decoded"), "successful run",
		"the program started, exited with 0 and its reply decoded"), 1)
}

// paramNamed: the value is a parameter of f of interface type any, the reply.
func paramNamed(p *Prog, v ssa.Value, f *ssa.Function, name string) bool {
	for _, o := range (&Flow{P: p, NoCallers: true}).From(v) {
		pr, ok := o.V.(*ssa.Parameter)
		if !ok || pr.Parent() != f {
			return false
		}
		if pr.Name() != name && typeName(pr.Type()) != "any" && pr.Type().String() != "any" && pr.Type().String() != "interface{}" {
			return false
		}
	}
	return true
}

// requestFields: the request given to a program is made of the fields of the same name of the request handled.
func requestFields(p *Prog, r *Report, typ string, min int) {
	from := map[string]string{"Agent": "Agent", "Action": "Action", "RequestID": "RequestID", "SenderID": "SenderID", "CallerID": "CallerID",
		"Caller": "CallerID", "Collective": "Collective", "TTL": "TTL", "Data": "Data", "Time": "Time"}
	n := 0
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa)
				if !strings.HasPrefix(k, typ+".") {
					continue
				}
				name := k[len(typ)+1:]
				src, known := from[name]
				if !known {
					continue
				}
				n++
				fl := &Flow{P: p, Derive: derive(map[string]int{"(time.Time).Unix": 0})}
				r.at("request", st, typ[strings.LastIndex(typ, ".")+1:]+"."+name, onlyOf(fl, st.Val, "field:"+mcReq+"."+src), "must be the "+src+" of the request handled")
			}
		}
	}
	r.need("request", "fields set in "+typ, n, min-1)
}
