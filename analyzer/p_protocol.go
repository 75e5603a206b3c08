package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// requestChain is the model of how a request gets from the network to an agent.
func requestSpec(p *Prog) *Spec {
	s := newSpec(p)
	s.result("sig", 0, True, nil, "(inter.SecurityProvider).VerifySignatureBytes")
	s.result("caller", 1, Nil, nil, "(inter.SecurityProvider).ShouldAllowCaller")
	s.result("insecure", 0, False, nil, "protocol.IsSecure")
	s.result("!insecure", 0, True, nil, "protocol.IsSecure")
	s.field("verify.disabled", "config.Config.DisableSecurityProviderVerify", True)
	s.result("match", 0, True, nil, "(*protocol.Filter).MatchServerRequest")
	s.result("fresh", 0, True, nil, "(inter.Message).ValidateTTL", "(*message.Message).ValidateTTL")
	// what a security provider does is decided by other properties
	for _, m := range []string{"VerifySignatureBytes", "ShouldAllowCaller", "CallerIdentity"} {
		for _, f := range p.implsOf("inter.SecurityProvider", m) {
			s.opaque[fname(f)] = true
		}
	}
	if f := p.fn("protocol.IsSecure"); f != nil {
		s.opaque[fname(f)] = true
	}
	return s
}

var pVerified = anyOf(has("sig", "caller"), has("insecure"), has("verify.disabled"))

func init() {
	register(&Check{
		ID: "P01", Level: "proof",
		Rule:        "every path to handing a request to an agent passed the success branch of signature verification and of the caller check, of filter matching and of the age check, all made on the very request that is handed over; fresh means made less than its time to live ago, and that age is the one the signed request carries; the signature covers the bytes the request is decoded from and is checked against all the credentials that came along together; nothing changes a request after it was received",
		Explanation: "must-facts over SSA followed along all call chains into the agent dispatcher, through interface implementations; provenance ties the verified bytes, the decoded request and the dispatched request together",
		Assume:      []string{"the security providers verify what they claim to verify: decided by the security properties", "operators who set the documented switches that turn verification off mean it"},
		Run: func(p *Prog, r *Report) {
			s := requestSpec(p)
			a := s.facts()
			ctx := a.Whole()
			var disp []ssa.CallInstruction
			for _, c := range p.callsTo("(*server/agents.Manager).Dispatch") {
				disp = append(disp, c)
			}
			if !r.need("dispatch", "calls of the agent dispatcher", len(disp), 1) {
				return
			}
			fl := &Flow{P: p, Stop: callSource("NewRequestFromSecureRequest")}
			for _, c := range disp {
				r.require("dispatch", ctx, c, "dispatch to an agent", pVerified, "a verified signature and an allowed caller")
				r.require("filter", ctx, c, "dispatch to an agent", has("match"), "a filter that matches this server")
				r.require("ttl", ctx, c, "dispatch to an agent", has("fresh"), "a message that is not too old")
				av := c.Common().Args
				req := av[len(av)-1]
				msg := av[len(av)-2]
				ok := fl.Only(req, "result:NewRequestFromSecureRequest", "?nil")
				r.at("same-request", c, "request handed to the agent", ok, "must be the one decoded from the verified secure request; got "+strings.Join(sortedKeys(fl.Labels(req)), ","))
				// the message is built from the same request
				mfl := &Flow{P: p, Stop: callSource("NewMessageFromRequest")}
				for _, o := range mfl.From(msg) {
					if o.Label == "?nil" {
						continue
					}
					mc, _ := callOf(o.V)
					if mc == nil || mname(&mc.Call) != "NewMessageFromRequest" {
						r.at("same-request", c, "message from "+o.Label, false, "the message handed to the agent must be made from the verified request")
						continue
					}
					r.at("same-request", c, "message handed to the agent", sameOrigins(fl, args(&mc.Call)[0], req), "must be made from the request handed to the agent")
				}
				// the request that was matched is the one dispatched
				for _, o := range fl.From(req) {
					rc, _ := callOf(o.V)
					if rc == nil {
						continue
					}
					sfl := &Flow{P: p, Stop: callSource("NewSecureRequestFromTransport")}
					sv := args(&rc.Call)[0]
					r.at("same-request", rc, "secure request the request is decoded from", sfl.Only(sv, "result:NewSecureRequestFromTransport", "?nil"), "must be the one that was verified; got "+strings.Join(sortedKeys(sfl.Labels(sv)), ","))
				}
			}
			match := 0
			for _, c := range p.callsTo("(*server/discovery.Manager).ShouldProcess") {
				match++
				ok := false
				for _, d := range disp {
					av := d.Common().Args
					if sameOrigins(fl, args(c.Common())[0], av[len(av)-1]) {
						ok = true
					}
				}
				r.at("same-request", c, "request matched against filters", ok, "must be the request handed to the agent")
			}
			r.need("same-request", "filter matches", match, 1)
			verifyChain(p, r)
			sameMessage(p, r)
		},
	})
}

// verifyChain: what Valid verifies is what the request is later decoded from.
func verifyChain(p *Prog, r *Report) {
	dec := derive(map[string]int{"(*encoding/base64.Encoding).DecodeString": 1})
	impls := p.implsOf("protocol.SecureRequest", "Valid")
	r.need("signed-bytes", "secure request implementations", len(impls), 2)
	for _, f := range impls {
		r.seen(f)
		T := typeName(f.Params[0].Type())
		body, sigF := "field:"+T+".MessageBody", "field:"+T+".Signature"
		pub := map[string]bool{"field:" + T + ".PublicCertificate": true, "field:" + T + ".CallerJWT": true, "field:" + T + ".SignerJWT": true}
		fl := &Flow{P: p, Derive: dec, NoCallers: true}
		nv, na := 0, 0
		reachCalls(p, f, func(c ssa.CallInstruction) {
			if fnPkgPath(c.Parent()) != fnPkgPath(f) {
				return
			}
			cc := c.Common()
			switch mname(cc) {
			case "VerifySignatureBytes":
				nv++
				av := args(cc)
				r.at("signed-bytes", c, "data whose signature is checked", fl.Only(av[0], body), "must be the embedded request; got "+strings.Join(sortedKeys(fl.Labels(av[0])), ","))
				r.at("signed-bytes", c, "signature checked", fl.Only(av[1], sigF), "must be the message's signature; got "+strings.Join(sortedKeys(fl.Labels(av[1])), ","))
				r.at("signed-bytes", c, "public data used", publicData(fl, av[2], pub), "must be the public data in the message; got "+strings.Join(sortedKeys(fl.Labels(av[2])), ","))
			case "ShouldAllowCaller":
				na++
				av := args(cc)
				nfl := &Flow{P: p, NoCallers: true, Derive: dec, Stop: callSource("CallerID")}
				nfl.Derive = func(c *ssa.Call) []ssa.Value {
					if mname(&c.Call) == "CallerIdentity" {
						return args(&c.Call)[:1]
					}
					return dec(c)
				}
				ok := nfl.Only(av[0], "result:CallerID")
				for _, o := range nfl.From(av[0]) {
					if cc, _ := callOf(o.V); cc != nil && mname(&cc.Call) == "CallerID" {
						rf := &Flow{P: p, NoCallers: true, Stop: callSource("NewRequestFromSecureRequest")}
						ok = ok && rf.Only(recvArg(&cc.Call), "result:NewRequestFromSecureRequest", "?nil")
						for _, ro := range rf.From(recvArg(&cc.Call)) {
							if rc, _ := callOf(ro.V); rc != nil {
								ok = ok && (&Flow{P: p, NoCallers: true}).Only(args(&rc.Call)[0], "param:"+fname(f)+"."+f.Params[0].Name())
							}
						}
					}
				}
				r.at("caller-name", c, "caller name checked", ok, "must be the caller in the embedded request")
				r.at("caller-name", c, "public data checked", publicData(fl, av[1], pub), "must be the public data in the message")
			}
		})
		r.need("signed-bytes", "signature verifications in "+fname(f), nv, 1)
		r.need("caller-name", "caller checks in "+fname(f), na, 1)
		// valid only when verified
		s := requestSpec(p)
		n := r.returnsRequire("valid", s.facts(), f, 0, True, anyOf(has("sig", "caller"), has("insecure")), "returns valid", "a verified signature and an allowed caller")
		r.need("valid", "valid returns of "+fname(f), n, 1)
	}
	// the request is decoded from the signed bytes
	msgs := p.implsOf("protocol.SecureRequest", "Message")
	r.need("decoded-bytes", "secure request message accessors", len(msgs), 2)
	for _, f := range msgs {
		T := typeName(f.Params[0].Type())
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover {
				fl := &Flow{P: p, NoCallers: true}
				r.at("decoded-bytes", ret, "message of a secure request", fl.Only(ret.Results[0], "field:"+T+".MessageBody"), "must be the embedded request that was signed")
			}
		}
	}
	n := 0
	for _, f := range p.Funcs {
		if f.Name() != "NewRequestFromSecureRequest" || f.Signature.Recv() != nil {
			continue
		}
		reachCalls(p, f, func(c ssa.CallInstruction) {
			if cname(c.Common()) != "encoding/json.Unmarshal" || fnPkgPath(c.Parent()) != fnPkgPath(f) {
				return
			}
			n++
			fl := &Flow{P: p, NoCallers: true, Stop: callSource("Message")}
			ok := false
			for _, o := range fl.From(c.Common().Args[0]) {
				if mc, _ := callOf(o.V); mc != nil && mname(&mc.Call) == "Message" {
					ok = (&Flow{P: p, NoCallers: true}).Only(recvArg(&mc.Call), "param:"+fname(f)+"."+f.Params[0].Name())
				} else {
					ok = false
					break
				}
			}
			r.at("decoded-bytes", c, "bytes the request is decoded from", ok, "must be the message of the secure request that was verified")
		})
	}
	r.need("decoded-bytes", "decodings of requests", n, 2)
	// verification is only skipped where the caller asked for it
	n = 0
	for _, f := range p.Funcs {
		if f.Name() != "NewSecureRequestFromTransport" || f.Signature.Recv() != nil || isMock(fnPkgPath(f)) {
			continue
		}
		n++
		s := requestSpec(p)
		skip := len(f.Params) - 1
		s.cond(func(v ssa.Value, o Outcome) []string {
			if v == ssa.Value(f.Params[skip]) && o == True {
				return []string{"skip"}
			}
			return nil
		})
		r.returnsRequire("constructed", s.facts(), f, 1, Nil, anyOf(has("sig", "caller"), has("insecure"), has("skip")), "secure request constructed", "validity, unless the caller asked to skip it")
	}
	r.need("constructed", "secure request constructors", n, 2)
	n = 0
	for _, c := range append(p.callsTo("(inter.Framework).NewSecureRequestFromTransport", "(*choria.Framework).NewSecureRequestFromTransport"), p.callsTo("(inter.Framework).NewRequestFromTransportJSON", "(*choria.Framework).NewRequestFromTransportJSON")...) {
		if adapterPkg(c.Parent()) {
			continue // adapters republish what passes through them and act on nothing
		}
		n++
		av := args(c.Common())
		ok, det := skipSource(p, av[len(av)-1], c.Parent(), 0)
		r.at("skip", c, "skip of verification", ok, "verification may only be turned off by configuration; "+det)
	}
	r.need("skip", "uses of the skip switch", n, 2)
}

func adapterPkg(f *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(f), modPath+"/broker/adapter")
}

// skipSource: a switch that turns verification off is false, comes from the configuration, or is passed by the adapters.
func skipSource(p *Prog, v ssa.Value, in *ssa.Function, d int) (bool, string) {
	if d > 6 {
		return false, "too many callers"
	}
	switch x := v.(type) {
	case *ssa.Const:
		k, ok := constBool(x)
		if ok && (!k || adapterPkg(in)) {
			return true, "off"
		}
		return false, "always skipped in " + fname(in)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ok, det := skipSource(p, e, in, d+1); !ok {
				return ok, det
			}
		}
		return true, "all sources are"
	case *ssa.Parameter:
		idx := -1
		for i, q := range in.Params {
			if q == x {
				idx = i
			}
		}
		for _, s := range p.sites[in] {
			av := s.Common().Args
			i := idx
			if s.Common().IsInvoke() {
				i--
			}
			if i < 0 || i >= len(av) {
				return false, "unresolved call in " + fname(s.Parent())
			}
			if ok, det := skipSource(p, av[i], s.Parent(), d+1); !ok {
				return ok, det
			}
		}
		return true, "all callers are"
	}
	fl := &Flow{P: p}
	for _, o := range fl.From(v) {
		if o.Label != "field:config.Config.DisableSecurityProviderVerify" {
			return false, "decided by " + o.Label + " in " + fname(in)
		}
	}
	return true, "configured"
}

// publicData: everything that can be in the list is a public part of the message.
func publicData(fl *Flow, v ssa.Value, pub map[string]bool) bool {
	ls := fl.Labels(v)
	delete(ls, "?nil")
	delete(ls, "?zero")
	if len(ls) == 0 {
		return false
	}
	for l := range ls {
		if !pub[l] {
			return false
		}
	}
	return true
}

// reachCalls visits the calls of a function and of the functions of its package that it calls, including closures.
func reachCalls(p *Prog, f *ssa.Function, visit func(c ssa.CallInstruction)) {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || !p.InRepo[g] {
			return
		}
		seen[g] = true
		calls(g, func(c ssa.CallInstruction) {
			visit(c)
			if c.Common().IsInvoke() {
				return
			}
			for _, h := range p.callees(c) {
				if fnPkgPath(h) == fnPkgPath(f) {
					walk(h)
				}
			}
		})
		for _, an := range g.AnonFuncs {
			walk(an)
		}
	}
	walk(f)
}

var _ = fmt.Sprint
