package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const amgr = "server/agents.Manager"

func managerSpec(p *Prog) *Spec {
	s := newSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		// timeout < 1 is false
		if b, ok := v.(*ssa.BinOp); ok && loadedField(b.X) == "server/agents.Metadata.Timeout" {
			n, isN := constInt(b.Y)
			if isN && ((b.Op == token.LSS && n >= 1 && o == False) || (b.Op == token.LEQ && n >= 0 && o == False) ||
				(b.Op == token.GTR && n >= 0 && o == True) || (b.Op == token.GEQ && n >= 1 && o == True)) {
				return []string{"timeout"}
			}
		}
		if c, ok := v.(*ssa.Call); ok && o == False {
			if l, _, ok := p.memberTest(c); ok && loadedField(l) == amgr+".denylist" {
				return []string{"undenied"}
			}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			if loadedField(x) == "server/agents.Metadata.Service" && loadedField(y) == "server/agents.Metadata.Service" && loadedBase(x) != loadedBase(y) {
				return []string{"same-service"}
			}
		}
		if ex, ok := v.(*ssa.Extract); ok && ex.Index == 1 {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok && loadedField(lk.X) == amgr+".agents" {
				if o == True {
					return []string{"known"}
				}
				if o == False {
					return []string{"new"}
				}
			}
		}
		return nil
	})
	s.nonEmpty("named", "server/agents.Metadata.Name")
	s.field("any-kind", amgr+".servicesOnly", False)
	s.field("is-service", "server/agents.Metadata.Service", True)
	s.result("active", 0, True, nil, "(server/agents.Agent).ShouldActivate")
	s.result("subscribed", 0, Nil, nil, "(*"+amgr+").subscribeAgent")
	s.opaque["(*"+amgr+").subscribeAgent"] = true
	return s
}

func init() {
	register(&Check{
		ID: "A03", Level: "proof",
		Rule:        "every insertion in the agent manager's registry is reached only with an agent that has a timeout and a name, said it should activate and, when new: is a service where only services may run, is not in the deny list under the name it is stored under, is not already known and had all its subscriptions made; when replacing one: that one is known and of the same kind. Requests are only handed to agents out of the registry, looked up by the name in the message, with a context that ends after the agent's timeout in seconds; subscriptions recorded for an agent are forgotten only after interest in every one of them was given up",
		Explanation: "must-facts on every path to the insertions; error tracking from each subscription to the return of the function; provenance of the agent, its name and the context given to its handler",
		Run: func(p *Prog, r *Report) {
			s := managerSpec(p)
			a := s.facts()
			ctx := a.Whole()
			n := 0
			for _, f := range p.Funcs {
				if isMock(fnPkgPath(f)) {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						mu, ok := i.(*ssa.MapUpdate)
						if !ok || loadedField(mu.Map) != amgr+".agents" {
							continue
						}
						n++
						r.require("admission", ctx, mu, "agent stored", has("timeout", "named", "active"), "an agent with a timeout and name that activates")
						r.require("admission", ctx, mu, "agent allowed", anyOf(has("known", "same-service"), allOf(has("new", "undenied", "subscribed"), anyOf(has("any-kind"), has("is-service")))),
							"a replacement of a known agent of the same kind, or a new agent that is not denied, is a service where required and is subscribed")
						sameName(p, r, mu)
					}
				}
			}
			r.need("admission", "insertions of agents", n, 2)

			// the subscriptions are all made, or registration fails
			subs := 0
			for _, c := range p.callsTo("(inter.AgentConnector).QueueSubscribe", "(inter.ConnectionManager).QueueSubscribe") {
				call, ok := c.(*ssa.Call)
				if !ok || fnPkgPath(c.Parent()) != modPath+"/server/agents" {
					continue
				}
				subs++
				ok, why := p.failsOnError(a, call, 0)
				r.at("subscribed", c, "subscription", ok, "a failure must fail the registration: "+why)
				subscription(p, r, call)
			}
			r.need("subscribed", "subscriptions", subs, 1)

			// dispatch
			d := 0
			for _, c := range p.callsTo("(server/agents.Agent).HandleMessage") {
				d++
				fl := &Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
					if lk, ok := v.(*ssa.Lookup); ok && loadedField(lk.X) == amgr+".agents" {
						return "registry"
					}
					return ""
				}}
				r.at("dispatch", c, "agent handling a request", onlyOf(fl, c.Common().Value, "registry"), "must come from the registry of agents")
				kf := &Flow{P: p, NoCallers: true, Stop: callSource("Agent"), Thru: func(v ssa.Value) []ssa.Value {
					if lk, ok := v.(*ssa.Lookup); ok && loadedField(lk.X) == amgr+".agents" {
						return []ssa.Value{lk.Index}
					}
					return nil
				}}
				r.at("dispatch", c, "name of the agent", onlyOf(kf, c.Common().Value, "result:Agent"), "must be the name in the message")
				bounded(p, r, c)
			}
			r.need("dispatch", "dispatches of requests", d, 1)
			leftovers(p, r)
			replies(p, r)
		},
	})
}

// sameName: the name checked against the deny list is the one the agent is stored under.
func sameName(p *Prog, r *Report, mu *ssa.MapUpdate) {
	fl := &Flow{P: p, NoCallers: true}
	calls(mu.Parent(), func(c ssa.CallInstruction) {
		call, ok := c.(*ssa.Call)
		if !ok {
			return
		}
		if l, e, ok := p.memberTest(call); ok && loadedField(l) == amgr+".denylist" {
			r.at("admission", call, "name tested against the deny list", sameOrigins(fl, e, mu.Key), "must be the name the agent is stored under")
		}
		if strings.HasSuffix(cname(&call.Call), ".subscribeAgent") {
			r.at("admission", call, "name subscribed", sameOrigins(fl, args(&call.Call)[1], mu.Key), "must be the name the agent is stored under")
		}
	})
}

// subscription: agents subscribe to their own targets in the configured collectives, services in a group.
func subscription(p *Prog, r *Report, c *ssa.Call) {
	av := args(&c.Call)
	fl := &Flow{P: p, NoCallers: true, Stop: callSource("ServiceBroadcastTarget", "AgentBroadcastTarget")}
	r.at("subscribed", c, "target subscribed to", onlyOf(fl, av[2], "result:ServiceBroadcastTarget", "result:AgentBroadcastTarget"), "must be the target of the agent")
	for _, o := range fl.From(av[2]) {
		t, ok := o.V.(*ssa.Call)
		if !ok {
			continue
		}
		e := elementOf(args(&t.Call)[0])
		r.at("subscribed", t, "collective subscribed in", e != nil && loadedField(e) == "config.Config.Collectives", "must be one of the configured collectives")
	}
}

// bounded: the context given to the handler ends after the timeout of the agent.
func bounded(p *Prog, r *Report, c ssa.CallInstruction) {
	fl := &Flow{P: p, NoCallers: true, Stop: callSource("WithTimeout")}
	ok := fl.Only(c.Common().Args[0], "result:WithTimeout")
	for _, o := range fl.From(c.Common().Args[0]) {
		w, _ := callOf(o.V)
		if w == nil {
			continue
		}
		tf := &Flow{P: p, NoCallers: true}
		has := false
		var visit func(v ssa.Value, d int)
		visit = func(v ssa.Value, d int) {
			if d > 6 {
				return
			}
			switch x := v.(type) {
			case *ssa.BinOp:
				visit(x.X, d+1)
				visit(x.Y, d+1)
			case *ssa.Convert:
				visit(x.X, d+1)
			default:
				if loadedField(v) == "server/agents.Metadata.Timeout" {
					has = true
				}
				for _, o := range tf.From(v) {
					if o.V != v {
						visit(o.V, d+1)
					}
				}
			}
		}
		visit(w.Call.Args[1], 0)
		ok = ok && has && inSeconds(w.Call.Args[1], 0)
	}
	r.at("timeout", c, "context of the handler", ok, "must end after the timeout in the metadata of the agent")
}

// inSeconds: where the duration multiplies by a constant, that is a second.
func inSeconds(v ssa.Value, d int) bool {
	if d > 6 {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.MUL {
			for _, s := range []ssa.Value{x.X, x.Y} {
				if n, ok := constInt(s); ok && n != 1e9 {
					return false
				}
			}
		}
		return inSeconds(x.X, d+1) && inSeconds(x.Y, d+1)
	case *ssa.Convert:
		return inSeconds(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !inSeconds(e, d+1) {
				return false
			}
		}
	}
	return true
}

// rewound: interest is given up for every subscription that is recorded for an agent.
func rewound(p *Prog, r *Report) {
	n := 0
	ends := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Unsubscribe"
	}
	var endsIn func(c ssa.CallInstruction, d int) bool
	endsIn = func(c ssa.CallInstruction, d int) bool {
		for _, g := range p.callees(c) {
			if d > 3 || fnPkgPath(g) != modPath+"/server/agents" {
				continue
			}
			found := false
			calls(g, func(c ssa.CallInstruction) { found = found || ends(c) || endsIn(c, d+1) })
			if found {
				return true
			}
		}
		return false
	}
	for _, f := range p.Funcs {
		if fnPkgPath(f) != modPath+"/server/agents" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if deletes(i, amgr+".subs") {
					ok := p.precededBy(i, func(i ssa.Instruction) bool {
						if c, ok := i.(ssa.CallInstruction); ok {
							return ends(i) || endsIn(c, 0)
						}
						for _, l := range loopsOf(i.Parent()) {
							if l.head != i.Block() {
								continue
							}
							for _, b := range l.head.Parent().Blocks {
								for _, i := range b.Instrs {
									c, ok := i.(ssa.CallInstruction)
									if ok && l.body[b] && (ends(i) || endsIn(c, 0)) {
										return true
									}
								}
							}
						}
						return false
					})
					r.at("leftover", i, "forgotten subscriptions", ok, "interest in them must be given up first")
				}
				if !ends(i) {
					continue
				}
				n++
				r.at("leftover", i, "ended subscription", wholly(p, i, 0), "must be done for every subscription recorded, in a loop over all of them")
			}
		}
	}
	r.need("leftover", "ended subscriptions", n, 1)
}

// wholly: i runs in every pass of a loop over all of the recorded subscriptions that only an error leaves.
func wholly(p *Prog, i ssa.Instruction, d int) bool {
	var in *loop
	for _, l := range loopsOf(i.Parent()) {
		if l.body[i.Block()] && (in == nil || in.body[l.head]) {
			in = l
		}
	}
	if in != nil && (loadedLookup(in.over, 0) || d > 0) {
		ok := in.full && loadedLookup(in.over, 0) && (in.leftEarly() == nil || in.untilError())
		for _, b := range in.head.Preds {
			ok = ok && (!in.body[b] || i.Block().Dominates(b))
		}
		return ok
	}
	if d > 3 {
		return false
	}
	f := i.Parent()
	// a function of its own for one of them, or for a list of them
	cs := p.callsTo(fname(f))
	n := 0
	for _, c := range cs {
		if in == nil && !wholly(p, c, d+1) {
			return false
		}
		if in != nil {
			k := -1
			for j, q := range f.Params {
				if in.over == ssa.Value(q) {
					k = j
				}
			}
			if k < 0 || !in.full || !loadedLookup(args(c.Common())[k], 0) || in.leftEarly() != nil && !in.untilError() {
				return false
			}
		}
		n++
	}
	return n > 0
}

// loadedLookup: the value is what is recorded in the subscriptions of the manager, all of it.
func loadedLookup(v ssa.Value, d int) bool {
	if d > 5 || v == nil {
		return false
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		return loadedField(x.X) == amgr+".subs"
	case *ssa.Extract:
		return x.Index == 0 && loadedLookup(x.Tuple, d+1)
	case *ssa.Slice:
		return x.Low == nil && x.High == nil && loadedLookup(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !loadedLookup(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		switch cname(&x.Call) {
		case "slices.Clone":
			return loadedLookup(x.Call.Args[0], d+1)
		}
	}
	return false
}

func mapField(i ssa.Instruction, key string) *ssa.MapUpdate {
	mu, ok := i.(*ssa.MapUpdate)
	if !ok || loadedField(mu.Map) != key {
		return nil
	}
	return mu
}

func deletes(i ssa.Instruction, key string) bool {
	c, ok := i.(*ssa.Call)
	return ok && cname(&c.Call) == "builtin.delete" && loadedField(c.Call.Args[0]) == key
}

// leftovers: a registration that fails leaves no record of subscriptions, one that subscribed is completed, and
// an agent that is removed takes its record along.
func leftovers(p *Prog, r *Report) {
	subs, del := 0, 0
	for _, f := range p.Funcs {
		if fnPkgPath(f) != modPath+"/server/agents" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mu := mapField(i, amgr+".subs"); mu != nil {
					subs++
					ok, miss := p.mustPass(mu, nil, 0, Nil, func(i ssa.Instruction) bool { return deletes(i, amgr+".subs") }, returnsErr)
					det := "a failed registration forgets its subscriptions"
					if !ok {
						det = "can fail at " + p.ipos(miss) + " with the subscriptions still recorded, so the agent can not be registered again"
					}
					r.at("leftover", mu, "recorded subscriptions", ok, det)
				}
				if deletes(i, amgr+".agents") {
					del++
					ok, miss := p.mustPass(i, nil, 0, Nil, func(i ssa.Instruction) bool { return deletes(i, amgr+".subs") }, isReturn)
					if !ok {
						// the record may be gone already
						ok = p.precededBy(i, func(i ssa.Instruction) bool { return deletes(i, amgr+".subs") })
					}
					det := "removing an agent forgets its subscriptions"
					if !ok {
						det = "can end at " + p.ipos(miss) + " with the subscriptions of the removed agent still recorded"
					}
					r.at("leftover", i, "removed agent", ok, det)
				}
				c, ok := i.(*ssa.Call)
				if ok && cname(&c.Call) == "(*"+amgr+").subscribeAgent" {
					ok, miss := p.mustPass(c, c, 0, Nil, func(i ssa.Instruction) bool { return mapField(i, amgr+".agents") != nil }, isReturn)
					det := "a subscribed agent is stored"
					if !ok {
						det = "can end at " + p.ipos(miss) + " with the agent subscribed but not known"
					}
					r.at("leftover", c, "subscribed agent", ok, det)
				}
			}
		}
	}
	rewound(p, r)
	r.need("leftover", "records of subscriptions", subs, 2)
	r.need("leftover", "removals of agents", del, 1)
}

// precededBy: every path from the entry of the function to an instruction runs one that via accepts.
func (p *Prog) precededBy(at ssa.Instruction, via func(i ssa.Instruction) bool) bool {
	first := at.Parent().Blocks[0].Instrs[0]
	if first == at {
		return false
	}
	if p.runs(first, via, map[*ssa.Function]bool{}) {
		return true
	}
	ok, _ := p.mustPass(first, nil, 0, Nil, via, func(i ssa.Instruction) bool { return i == at })
	return ok
}

// replies: a dispatch hands on one reply, the one the agent gave or an error, and only replies without an error
// are published.
func replies(p *Prog, r *Report) {
	const ar = "server/agents.AgentReply"
	f := r.anchor("reply", "(*"+amgr+").Dispatch")
	if f == nil {
		return
	}
	var sends []ssa.Instruction
	var handler ssa.CallInstruction
	send := func(at ssa.Instruction, ch, v ssa.Value) {
		if !strings.HasSuffix(typeName(ch.Type().Underlying().(*types.Chan).Elem()), "AgentReply") {
			return
		}
		sends = append(sends, at)
		fl := &Flow{P: p, NoCallers: true, NoDescend: true}
		for _, o := range fl.From(v) {
			if o.Label == "?recv" {
				same := false
				if ch := recvChan(o.V); ch != nil && handler != nil {
					av := handler.Common().Args
					same = sameOrigins(fl, ch, av[len(av)-1])
				}
				r.at("reply", at, "reply handed on", same, "must be what the agent gave")
				continue
			}
			al, isAlloc := allocOf(o.V)
			set := false
			if isAlloc {
				for _, rf := range *al.Referrers() {
					if fa, ok := rf.(*ssa.FieldAddr); ok && fieldKey(fa) == ar+".Error" {
						for _, rr := range *fa.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && neverNil(st.Val) {
								set = true
							}
						}
					}
				}
			}
			r.at("reply", at, "reply made for the agent", set, "must carry an error: the agent gave none")
		}
	}
	calls(f, func(c ssa.CallInstruction) {
		if cname(c.Common()) == "(server/agents.Agent).HandleMessage" {
			handler = c
		}
	})
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Send:
				send(x, x.Chan, x.X)
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly {
						send(x, s.Chan, s.Send)
					}
				}
			}
		}
	}
	r.need("reply", "replies handed on", len(sends), 1)
	for _, a := range sends {
		for _, b := range sends {
			r.at("reply", a, "single reply", !sentAgain(a, b), "a second reply could be sent for the same request")
		}
	}
	if handler != nil {
		r.at("dispatch", handler, "single handling", !reachableAfter(handler, handler), "the agent could be given the same request again")
	}
	n := 0
	for _, c := range p.callsTo("(*"+amgr+").Dispatch", "(server.AgentManager).Dispatch") {
		n++
		r.at("dispatch", c, "single dispatch", !reachableAfter(c, c), "the same request could be dispatched again")
	}
	r.need("dispatch", "callers of the dispatcher", n, 1)

	s := newSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if o == Nil && loadedField(v) == ar+".Error" {
			return []string{"answered"}
		}
		return nil
	})
	a := s.facts()
	ctx := a.Whole()
	n = 0
	for _, c := range p.callsTo("(inter.Connector).Publish", "(inter.PublishableConnector).Publish", "(inter.ConnectionManager).Publish") {
		if fnPkgPath(c.Parent()) != modPath+"/server" {
			continue
		}
		if !p.usesReply(c.Parent(), ar) {
			continue
		}
		n++
		r.require("reply", ctx, c, "reply published", has("answered"), "a reply without error")
	}
	r.need("reply", "places replies are published", n, 1)
}

// usesReply: the function, or a caller of it in the package, is given agent replies.
func (p *Prog) usesReply(f *ssa.Function, t string) bool {
	for _, pr := range f.Params {
		if typeName(deref(pr.Type())) == t {
			return true
		}
	}
	for _, s := range p.sites[f] {
		if fnPkgPath(s.Parent()) == fnPkgPath(f) && s.Parent() != f {
			for _, pr := range s.Parent().Params {
				if typeName(deref(pr.Type())) == t {
					return true
				}
			}
		}
	}
	return false
}

func allocOf(v ssa.Value) (*ssa.Alloc, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x, true
	case *ssa.UnOp:
		return allocOf(x.X)
	}
	return nil, false
}

// sentAgain: after a sent, b may be reached.
func sentAgain(a, b ssa.Instruction) bool {
	sel, ok := a.(*ssa.Select)
	if !ok {
		return reachableAfter(a, b)
	}
	for k, st := range sel.States {
		if st.Dir != types.SendOnly {
			continue
		}
		arms := selectArm(sel, k)
		if len(arms) == 0 {
			return reachableAfter(a, b)
		}
		for _, arm := range arms {
			if comesBack(arm, b) {
				return true
			}
		}
	}
	return false
}
