package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dynCalls lists the calls of function values of a named type.
func (p *Prog) dynCalls(typ string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) {
			continue
		}
		calls(f, func(c ssa.CallInstruction) {
			if !c.Common().IsInvoke() && c.Common().StaticCallee() == nil && typeName(c.Common().Value.Type()) == typ {
				out = append(out, c)
			}
		})
	}
	return out
}

const mco = "providers/agent/mcorpc"

// verifiedMeta are the fields of an RPC request that must come from the verified network request.
var verifiedMeta = []string{"CallerID", "RequestID", "SenderID", "Collective", "CallerPublicData", "SignerPublicData", "TTL", "Time", "Filter"}

func actionSpec(p *Prog) *Spec {
	s := newSpec(p)
	s.field("authz.off", "config.Config.RPCAuthorization", False)
	s.field("audit.off", "config.Config.RPCAudit", False)
	s.result("authorized", 0, True, nil, mco+".AuthorizeRequest")
	s.execCall("audited", nil, mco+"/audit.Request")
	s.opaque[mco+".AuthorizeRequest"] = true
	s.opaque[mco+"/audit.Request"] = true
	s.cond(func(v ssa.Value, o Outcome) []string {
		x, y, eq, ok := equality(v, o)
		if !ok || !eq {
			return nil
		}
		for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
			if loadedField(pr[0]) == mco+".Request.Agent" {
				if ownAgentName(p, pr[1]) {
					return []string{"own-agent"}
				}
			}
		}
		return nil
	})
	return s
}

// ownAgentName: the value is the name in the agent's own metadata.
func ownAgentName(p *Prog, v ssa.Value) bool {
	return (&Flow{P: p}).Only(v, "field:server/agents.Metadata.Name")
}

func init() {
	register(&Check{
		ID: "A01", Level: "proof",
		Rule:        "every path to running a registered action passed the granting branch of authorization for that very request and for this agent, and an audit call for it, unless the configuration turns these off; the action run is the one named in the request that was authorized; caller, sender, collective, age and filter of the request are overwritten from the verified network request after its payload is decoded; the audit provider writes every request it is given to the configured file, unless that is not set, can not be opened or the entry can not be encoded",
		Explanation: "must-facts along every call chain to every call of a registered action, with provenance of the request between parsing, authorization, audit, lookup and the action",
		Assume:      []string{"actions are run through the registered action type; the discovery agent has no actions and replies to pings only"},
		Run: func(p *Prog, r *Report) {
			s := actionSpec(p)
			ctx := s.facts().Whole()
			acts := p.dynCalls(mco + ".Action")
			if !r.need("authorized", "calls of actions", len(acts), 1) {
				return
			}
			reqOf := &Flow{P: p}
			reqOf.Stop = func(v ssa.Value) string {
				if al, ok := v.(*ssa.Alloc); ok && typeName(deref(al.Type())) == mco+".Request" {
					return "request"
				}
				return ""
			}
			for _, c := range acts {
				if strings.HasPrefix(fnPkgPath(c.Parent()), modPath+"/integration") {
					continue
				}
				if f := c.Parent(); types.Identical(f.Signature, c.Common().Value.Type().Underlying()) && len(f.Params) == f.Signature.Params().Len() {
					// an action that wraps another is itself only run as an action
					r.at("same-request", c, "wrapped action", c.Common().Args[1] == ssa.Value(f.Params[1]), "must be given the request its wrapper was given")
					continue
				}
				r.require("authorized", ctx, c, "call of an action", anyOf(has("authorized", "own-agent"), has("authz.off")), "authorization of the request for this agent")
				r.require("audited", ctx, c, "call of an action", anyOf(has("audited"), has("audit.off")), "an audit of the request")
				req := c.Common().Args[1]
				origins := 0
				for _, o := range reqOf.From(req) {
					if o.Label == "?nil" {
						continue
					}
					origins++
					al, ok := o.V.(*ssa.Alloc)
					r.at("metadata", c, "request of the action from "+o.Label, ok, "must be one that was parsed from the verified network request")
					if ok {
						metadata(p, r, al)
					}
				}
				r.need("metadata", "sources of the request given to an action", origins, 1)
				// the action found is the one named in the request
				afl := &Flow{P: p, Stop: func(v ssa.Value) string {
					if lk, ok := v.(*ssa.Lookup); ok && loadedField(lk.X) == mco+".Agent.actions" {
						return "registered"
					}
					return ""
				}}
				for _, o := range afl.From(c.Common().Value) {
					if o.Label != "registered" {
						continue
					}
					lk := o.V.(*ssa.Lookup)
					ok := loadedField(lk.Index) == mco+".Request.Action" && sameOrigins(reqOf, loadedBase(lk.Index), reqOf2(p, c))
					r.at("same-action", lk, "action looked up", ok, "must be the action named in the request that is authorized and run")
				}
			}
			for _, c := range p.callsTo(mco + ".AuthorizeRequest") {
				if c.Parent().Parent() != nil || !strings.HasPrefix(fname(c.Parent()), "(*"+mco+".Agent).") {
					continue
				}
				for _, a := range acts {
					if strings.HasPrefix(fname(a.Parent()), "(*"+mco+".Agent).") {
						r.at("same-request", c, "request authorized", sameOrigins(reqOf, c.Common().Args[1], a.Common().Args[1]), "must be the request given to the action")
					}
				}
			}
			n := 0
			for _, c := range p.callsTo(mco + "/audit.Request") {
				n++
				av := c.Common().Args
				fieldIs := func(v ssa.Value, f string) bool { return loadedField(v) == mco+".Request."+f }
				r.at("audited", c, "action audited", fieldIs(av[2], "Action"), "must be the action of the request")
				r.at("audited", c, "data audited", fieldIs(av[3], "Data"), "must be the data of the request")
				r.at("audited", c, "agent audited", fieldIs(av[1], "Agent") || ownAgentName(p, av[1]), "must be the agent of the request")
			}
			r.need("audited", "audit calls", n, 1)
			auditLog(p, r)
		},
	})
}

func reqOf2(p *Prog, c ssa.CallInstruction) ssa.Value { return c.Common().Args[1] }

// metadata: after decoding, the trusted fields are overwritten from the network request on every successful return.
func metadata(p *Prog, r *Report, al *ssa.Alloc) {
	f := al.Parent()
	r.seen(f)
	s := newSpec(p)
	s.execCall("decoded", func(c ssa.CallInstruction) bool {
		for _, a := range c.Common().Args {
			if mi, ok := a.(*ssa.MakeInterface); ok && mi.X == ssa.Value(al) {
				return true
			}
		}
		return false
	}, "encoding/json.Unmarshal")
	stores := map[*ssa.Store]string{}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		n := structField(deref(al.Type()), fa.Field)
		for _, rr := range *fa.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				stores[st] = n
			}
		}
	}
	s.exec(func(i ssa.Instruction) []string {
		st, ok := i.(*ssa.Store)
		if !ok {
			return nil
		}
		n := stores[st]
		if n == "" {
			return nil
		}
		c, _ := callOf(st.Val)
		if c != nil && cname(&c.Call) == "(protocol.Request)."+n {
			return []string{"set." + n}
		}
		return nil
	})
	a := s.facts()
	errIdx := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isErr(f.Signature.Results().At(i).Type()) {
			errIdx = i
		}
	}
	var want []string
	for _, m := range verifiedMeta {
		want = append(want, "set."+m)
	}
	if errIdx >= 0 {
		r.returnsRequire("metadata", a, f, errIdx, Nil, has(want...), "request parsed", "all of "+strings.Join(verifiedMeta, ", ")+" taken from the network request")
	} else {
		r.at("metadata", al, "request made", false, "the function that makes requests must report errors")
	}
	isMeta := strset(verifiedMeta)
	ctx := a.From(f)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || !isMeta[stores[st]] {
				continue
			}
			c, _ := callOf(st.Val)
			r.at("metadata", st, "value of "+stores[st], c != nil && cname(&c.Call) == "(protocol.Request)."+stores[st], "must come from the network request")
			r.require("metadata", ctx, st, "set of "+stores[st], has("decoded"), "the payload to have been decoded already")
		}
	}
	// nothing decodes into it again
	n := 0
	for _, ref := range *al.Referrers() {
		if mi, ok := ref.(*ssa.MakeInterface); ok {
			for _, rr := range *mi.Referrers() {
				if c, ok := rr.(*ssa.Call); ok && strings.HasPrefix(cname(&c.Call), "encoding/json.") {
					n++
				}
			}
		}
	}
	r.ob("metadata", fname(f)+": decodings", n == 1, p.pos(al.Pos()), "the payload must be decoded once, before the fields are set")
}

// auditLog: what is reported as audited was written, by appending, with the caller and request of the network request.
func auditLog(p *Prog, r *Report) {
	f := r.anchor("audit-log", mco+"/audit.Request")
	if f == nil {
		return
	}
	s := newSpec(p)
	s.result("written", 1, Nil, nil, "(*os.File).WriteString", "(*os.File).Write", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString")
	n := r.returnsRequire("audit-log", s.facts(), f, 0, True, has("written"), "reports the request audited", "the entry to have been written")
	r.need("audit-log", "successful returns of the audit", n, 1)
	// nothing keeps a request out of the log but a log that can not be written
	t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return nameIn(n, "WriteString", "Write", "Fprintf", "Fprintln") }}
	r.judge("audit-log", t, f, paramTerms(f, "request", "agent", "action", "data", "cfg"), "every request is written", func(o *pathOf) string {
		if len(o.did) > 0 || o.is("cfg.RPCAudit") == no || o.is("empty(cfg.Choria.RPCAuditLogfile)") == yes {
			return ""
		}
		for h := range o.have {
			if strings.HasPrefix(h, "if nil==") && strings.HasSuffix(h, " false") {
				return ""
			}
		}
		return "is left out"
	})
	set := map[string]string{"CallerID": "CallerID", "Sender": "SenderID", "RequestID": "RequestID"}
	opened := 0
	reachCalls(p, f, func(c ssa.CallInstruction) {
		if cname(c.Common()) != "os.OpenFile" {
			return
		}
		opened++
		k, ok := constInt(c.Common().Args[1])
		r.at("audit-log", c, "audit log opened", ok && k&0x400 != 0 && k&0x200 == 0, "must be opened for appending, and not be truncated")
	})
	r.need("audit-log", "openings of the audit log", opened, 1)
	for _, k := range sortedKeys(set) {
		sts := p.fieldSt[mco+"/audit.Message."+k]
		for _, st := range sts {
			c, _ := callOf(st.Val)
			r.at("audit-log", st, "audited "+k, c != nil && cname(&c.Call) == "(protocol.Request)."+set[k], "must be that of the network request")
		}
		r.need("audit-log", "values of "+k+" in audit entries", len(sts), 1)
	}
}

var _ = token.MUL
