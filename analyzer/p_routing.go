package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Routing: requests and replies go where they are addressed, and nowhere else.

func init() {
	register(&Check{ID: "P07", Level: "other",
		Rule: "publish: what Connection.Publish sends, and where, for every type of message, with and without custom targets and federation, is exactly what that type is sent to (all paths, values named by where they come from); " +
			"envelope: each layer of a request or reply (message, request, secure request, transport and back) is made of the layer below it, in its own protocol version, and federation data moves along; " +
			"accessor: what is set in a request, reply, transport or message is what its getter finds and no other getter changes; made: new requests and replies hold what they are made for, a reply the request id and agent of its request; " +
			"message: reply messages are for the request they were made of, transports say where replies go and are cached only when told so; " +
			"client: a request is published only after the receiver of its replies subscribed, to the nodes given, discovered or in the batch, and each reply is verified, counted once, recorded and handled; " +
			"sticky: an error a callback stores in a variable is not overwritten by the next call",
		Explanation: "Follows all paths of the publisher, the framework's constructors, the protocol types and the clients with values named by where they come from, and compares subjects, payloads and fields with what the type of message calls for.",
		Run:         routing})
}

const (
	chorA = "choria."
)

func routing(p *Prog, r *Report) {
	publishes(p, r)
	envelopes(p, r)
	accessors(p, r)
	made(p, r)
	messages(p, r)
	requests(p, r)
	sticky(p, r)
}

// inPackage: functions of a package are looked into, other than some.
func inPackage(pkg string, not ...string) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		return fnPkgPath(f) == modPath+"/"+pkg && !nameIn(fname(f), not...)
	}
}

// paramTerms names the parameters of a function.
func paramTerms(f *ssa.Function, names ...string) ienv {
	e := ienv{}
	for i, n := range names {
		if i < len(f.Params) && n != "" {
			e[f.Params[i]] = mkTerm(n)
		}
	}
	return e
}

func publishes(p *Prog, r *Report) {
	const rule = "publish"
	f := r.anchor(rule, "(*choria.Connection).Publish")
	if f == nil {
		return
	}
	for _, m := range []string{"DirectRequestMessageType", "RequestMessageType", "ServiceRequestMessageType", "ReplyMessageType"} {
		for _, custom := range []string{"", "{custom}"} {
			for _, fed := range []bool{false, true} {
				t := &interp{p: p, terms: true, once: true, strict: true, inline: inPackage("choria", "(*choria.Connection).PublishRaw", "(*choria.Connection).Flush"),
					record: func(n string) bool { return n == "PublishRaw" },
					call: gives(map[string]constant.Value{
						".Type":                  p.pkgConst("inter", m),
						".CustomTarget":          constant.MakeString(custom),
						".ReplyTo":               constant.MakeString("{replyto}"),
						".Collective":            constant.MakeString("{collective}"),
						".Agent":                 constant.MakeString("{agent}"),
						".DiscoveredHosts":       constant.MakeString("{hosts}"),
						".RequestID":             constant.MakeString("{id}"),
						".IsFederated":           constant.MakeBool(fed),
						".FederationCollectives": constant.MakeString("{federations}"),
					}),
					closure: func(c ssa.CallInstruction, a []constant.Value) (ssa.Value, []constant.Value) {
						if cname(c.Common()) == "internal/util.SliceGroups" {
							return c.Common().Args[2], []constant.Value{a[0]}
						}
						return nil, nil
					},
				}
				to := map[string]string{
					"DirectRequestMessageType":  "{collective}.node.{hosts}[]",
					"RequestMessageType":        "{collective}.broadcast.agent.{agent}",
					"ServiceRequestMessageType": "{collective}.broadcast.service.{agent}",
					"ReplyMessageType":          "{replyto}",
				}[m]
				body := "msg.Transport(conn.ctx).JSON()"
				if fed && custom == "" {
					body = "msg.Transport(conn.ctx){FederationRequestID={id} FederationTargets=[" + to + "]}.JSON()"
					to = "choria.federation.{federations}[].federation"
				}
				what := "a " + strings.TrimSuffix(m, "MessageType") + " is published"
				if fed {
					what += " when federated"
				}
				if custom != "" {
					what += " with a custom target"
					to = custom
				}
				r.does(rule, t, f, paramTerms(f, "conn", "msg"), what, []string{"conn.PublishRaw(" + to + " " + body + ")"})
			}
		}
	}
}

// envelopes: requests and replies are made of what they are for, each layer of the one below it.
func envelopes(p *Prog, r *Report) {
	const rule = "envelope"
	fw := func(name string, t *interp, params []string, what string, want []string, vals ...string) {
		f := r.anchor(rule, name)
		if f == nil {
			return
		}
		t.p, t.terms, t.once = p, true, true
		if t.inline == nil {
			t.inline = helpers(p, f)
		}
		r.does(rule, t, f, paramTerms(f, params...), what, want, vals...)
	}
	rec := func(names ...string) func(n string) bool {
		return func(n string) bool { return nameIn(n, names...) }
	}
	const F = "(*choria.Framework)."

	fw(F+"NewRequestTransportForMessage", &interp{}, []string{"fw", "ctx", "msg", "version"},
		"the transport carries the secured request made of the message", nil,
		"fw.NewTransportForSecureRequest(fw.NewSecureRequest(ctx fw.NewRequestFromMessage(version msg)))")
	fw(F+"NewReplyTransportForMessage", &interp{record: rec("CopyFederationData")}, []string{"fw", "msg", "request"},
		"the transport carries the secured reply to the request", []string{"CopyFederationData(request fw.NewTransportForSecureReply(fw.NewSecureReply(fw.NewReply(request){Message=msg.Payload()})))"},
		"fw.NewTransportForSecureReply(fw.NewSecureReply(fw.NewReply(request){Message=msg.Payload()}))")
	for _, m := range []string{"DirectRequestMessageType", "RequestMessageType", "ServiceRequestMessageType"} {
		req := "fw.NewRequest(version msg.Agent() msg.SenderID() msg.CallerID() msg.TTL() msg.RequestID() msg.Collective())"
		fw(F+"NewRequestFromMessage", &interp{record: rec("SetMessage", "SetFilter"), call: gives(map[string]constant.Value{
			"(inter.Message).Type":   p.pkgConst("inter", m),
			"(inter.Message).Filter": constant.MakeString("{filter}"),
		})}, []string{"fw", "version", "msg"}, "a "+strings.TrimSuffix(m, "MessageType")+" is made of its message",
			[]string{req + ".SetMessage(msg.Payload())", req + ".SetFilter({filter})"}, req)
	}
	for _, v := range []string{"V1", "V2"} {
		pkg := strings.ToLower(v)
		version := func(recv, c string) func(ssa.CallInstruction) (string, map[int]constant.Value) {
			return gives(map[string]constant.Value{recv + ".Version": p.pkgConst("protocol", c)})
		}
		named := func(c ssa.CallInstruction) string {
			if g := c.Common().StaticCallee(); g != nil && (fnPkgPath(g) == modPath+"/protocol/v1" || fnPkgPath(g) == modPath+"/protocol/v2") {
				return g.Pkg.Pkg.Name() + "." + g.Name()
			}
			return ""
		}
		f := p.fn(F + "NewRequest")
		if f != nil && len(f.Params) > 1 {
			e := paramTerms(f, "fw", "", "agent", "sender", "caller", "ttl", "id", "collective")
			e[f.Params[1]] = p.pkgConst("protocol", "Request"+v)
			r.does(rule, &interp{p: p, terms: true, once: true, name: named, inline: helpers(p, f)}, f, e, "a request of version "+v, nil, pkg+".NewRequest(agent sender caller ttl id collective)")
		}
		fw(F+"NewReply", &interp{name: named, call: version("(protocol.Request)", "Request"+v)}, []string{"fw", "request"},
			"a reply of version "+v, nil, pkg+".NewReply(request fw.Config.Identity)")
		fw(F+"NewReplyFromSecureReply", &interp{name: named, call: version("(protocol.SecureReply)", "SecureReply"+v)}, []string{"fw", "sr"},
			"a reply of version "+v, nil, pkg+".NewReplyFromSecureReply(sr)")
		fw(F+"NewRequestFromSecureRequest", &interp{name: named, call: version("(protocol.SecureRequest)", "SecureRequest"+v)}, []string{"fw", "sr"},
			"a request of version "+v, nil, pkg+".NewRequestFromSecureRequest(sr)")
		fw(F+"NewSecureReply", &interp{name: named, call: version("(protocol.Reply)", "Reply"+v)}, []string{"fw", "reply"},
			"a secure reply of version "+v, nil, pkg+".NewSecureReply(reply fw.security)")
		fw(F+"NewSecureReplyFromTransport", &interp{name: named, call: version("(protocol.TransportMessage)", "Transport"+v)}, []string{"fw", "message", "skip"},
			"a secure reply of version "+v, nil, pkg+".NewSecureReplyFromTransport(message fw.security skip)")
		fw(F+"NewSecureRequestFromTransport", &interp{name: named, call: version("(protocol.TransportMessage)", "Transport"+v)}, []string{"fw", "message", "skip"},
			"a secure request of version "+v, nil, pkg+".NewSecureRequestFromTransport(message fw.security skip)")
		fw(F+"NewTransportForSecureRequest", &interp{name: named, record: rec("SetRequestData"), call: version("(protocol.SecureRequest)", "SecureRequest"+v)}, []string{"fw", "request"},
			"a transport of version "+v, []string{pkg + ".NewTransportMessage(fw.Config.Identity).SetRequestData(request)"}, pkg+".NewTransportMessage(fw.Config.Identity)")
		fw(F+"NewTransportForSecureReply", &interp{name: named, record: rec("SetReplyData"), call: version("(protocol.SecureReply)", "SecureReply"+v)}, []string{"fw", "reply"},
			"a transport of version "+v, []string{pkg + ".NewTransportMessage(fw.Config.Identity).SetReplyData(reply)"}, pkg+".NewTransportMessage(fw.Config.Identity)")
		for _, remote := range []bool{false, true} {
			c := version("(protocol.Request)", "Request"+v)
			fn := "NewSecureRequest(request fw.security)"
			if remote {
				fn = "NewRemoteSignedSecureRequest(ctx request fw.security)"
			}
			fw(F+"NewSecureRequest", &interp{name: named, call: func(i ssa.CallInstruction) (string, map[int]constant.Value) {
				if mname(i.Common()) == "IsRemoteSigning" {
					return "", map[int]constant.Value{0: constant.MakeBool(remote)}
				}
				return c(i)
			}}, []string{"fw", "ctx", "request"}, fmt.Sprintf("a secure request of version %s, remotely signed: %v", v, remote), nil, pkg+"."+fn)
		}
	}

	federationData(p, r, rule)

	// and back
	fw(F+"NewRequestMessageFromTransportJSON", &interp{record: rec("CopyFederationData")}, []string{"fw", "payload"},
		"the message is of the verified request in the transport",
		[]string{"CopyFederationData(fw.NewTransportFromJSON(payload) fw.NewRequestFromSecureRequest(fw.NewSecureRequestFromTransport(fw.NewTransportFromJSON(payload) false)))"},
		"NewMessageFromRequest(fw.NewRequestFromSecureRequest(fw.NewSecureRequestFromTransport(fw.NewTransportFromJSON(payload) false)) fw.NewTransportFromJSON(payload).ReplyTo() fw)")
	fw(F+"NewReplyFromTransportJSON", &interp{record: rec("CopyFederationData")}, []string{"fw", "payload", "skip"},
		"the reply is the one in the transport",
		[]string{"CopyFederationData(fw.NewTransportFromJSON(payload) fw.NewReplyFromSecureReply(fw.NewSecureReplyFromTransport(fw.NewTransportFromJSON(payload) skip)))"},
		"fw.NewReplyFromSecureReply(fw.NewSecureReplyFromTransport(fw.NewTransportFromJSON(payload) skip))")
	fw(F+"NewRequestFromTransportJSON", &interp{record: rec("CopyFederationData")}, []string{"fw", "payload", "skip"},
		"the request is the one in the transport",
		[]string{"CopyFederationData(fw.NewTransportFromJSON(payload) fw.NewRequestFromSecureRequest(fw.NewSecureRequestFromTransport(fw.NewTransportFromJSON(payload) skip)))"},
		"fw.NewRequestFromSecureRequest(fw.NewSecureRequestFromTransport(fw.NewTransportFromJSON(payload) skip))")
}

// federationData: what a federated message says about its federation goes along, and nothing does otherwise.
func federationData(p *Prog, r *Report, rule string) {
	f := r.anchor(rule, "protocol.CopyFederationData")
	if f == nil {
		return
	}
	for _, fed := range []bool{true, false} {
		t := &interp{p: p, terms: true, once: true, inline: helpers(p, f), record: func(n string) bool { return strings.HasPrefix(n, "Set") || n == "RecordNetworkHop" }}
		t.call = func(c ssa.CallInstruction) (string, map[int]constant.Value) {
			switch n := mname(c.Common()); n {
			case "IsFederated":
				return "", map[int]constant.Value{0: constant.MakeBool(fed)}
			case "FederationReplyTo", "FederationRequestID", "FederationTargets":
				return "", map[int]constant.Value{0: mkTerm("from." + n + "()"), 1: constant.MakeBool(true)}
			}
			return "", nil
		}
		if !fed {
			r.does(rule, t, f, paramTerms(f, "from", "to"), "a message that is not federated", []string{"to.SetUnfederated()"})
			continue
		}
		hop := "from.NetworkHops()[]"
		r.does(rule, t, f, paramTerms(f, "from", "to"), "a federated message", []string{"to.SetFederationReplyTo(from.FederationReplyTo())", "to.SetFederationRequestID(from.FederationRequestID())",
			"to.SetFederationTargets(from.FederationTargets())", "to.RecordNetworkHop(" + hop + "[0] " + hop + "[1] " + hop + "[2])"})
	}
}

// helpers: the functions of the same package that are not part of its interface.
func helpers(p *Prog, f *ssa.Function) func(g *ssa.Function) bool {
	return func(g *ssa.Function) bool {
		return fnPkgPath(g) == fnPkgPath(f) && (g.Parent() != nil || !token.IsExported(g.Name()))
	}
}

// methodsOf: the methods of a type of the module, by name.
func (p *Prog) methodsOf(typ string) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Signature.Recv() != nil && f.Synthetic == "" && short(typeName(f.Signature.Recv().Type())) == typ {
			out[f.Name()] = f
		}
	}
	return out
}

// reads runs a method that only looks on an object that holds something, and gives what it finds.
func reads(p *Prog, f *ssa.Function, obj string, holds ienv) []string {
	t := &interp{p: p, terms: true, once: true, inline: func(g *ssa.Function) bool { return fnPkgPath(g) == fnPkgPath(f) }}
	e := paramTerms(f, obj)
	for k, v := range holds {
		e[k] = v
	}
	found := map[string]bool{}
	for _, x := range t.run(f, e) {
		if len(x.vals) > 0 {
			found[showTerm(x.vals[0])] = true
		}
	}
	return sortedKeys(found)
}

// accessors: what is set in a message is what is found in it, and nothing else changes.
func accessors(p *Prog, r *Report) {
	const rule = "accessor"
	pairs := 0
	for _, typ := range []string{"protocol/v1.Request", "protocol/v1.Reply", "protocol/v1.TransportMessage", "protocol/v2.Request", "protocol/v2.Reply", "protocol/v2.TransportMessage", "message.Message"} {
		ms := p.methodsOf(typ)
		var getters []string
		for _, n := range sortedKeys(ms) {
			if set := ms["Set"+n]; set != nil && len(ms[n].Params) == 1 && len(set.Params) == 2 && ms[n].Signature.Results().Len() > 0 && types.Identical(set.Params[1].Type(), ms[n].Signature.Results().At(0).Type()) {
				getters = append(getters, n)
			}
		}
		for _, n := range getters {
			set := ms["Set"+n]
			pairs++
			ok, det := true, "finds what was set"
			t := &interp{p: p, terms: true, once: true, inline: func(g *ssa.Function) bool { return fnPkgPath(g) == fnPkgPath(set) }}
			type try struct {
				iexit
				val string
			}
			var tries []try
			for _, val := range append([]constant.Value{constant.MakeString("{new}")}, comparedWith(set)...) {
				e := paramTerms(set, "it")
				e[set.Params[1]] = val
				for _, x := range t.run(set, e) {
					if len(x.vals) > 0 && !sameConst(x.vals[len(x.vals)-1], isNil) {
						continue // it failed
					}
					tries = append(tries, try{x, showTerm(val)})
				}
				if len(tries) > 0 && showTerm(val) == "{new}" {
					break
				}
			}
			if len(tries) == 0 {
				ok, det = false, "always fails"
			}
			for _, x := range tries {
				if got := reads(p, ms[n], "it", x.cells); len(got) != 1 || got[0] != x.val {
					ok, det = false, "finds "+strings.Join(got, " or ")+", not what was set"
				}
				for _, other := range getters {
					if other == n || !ok {
						continue
					}
					was, is := reads(p, ms[other], "it", nil), reads(p, ms[other], "it", x.cells)
					for _, got := range is {
						unset := map[string]bool{"": true, "?": true, "nil": true, "0": true}
						if !containsStr(was, got) && !(unset[got] && (containsStr(was, "") || containsStr(was, "?") || containsStr(was, "nil"))) {
							ok, det = false, other+" finds "+got+" after it, not "+strings.Join(was, " or ")
						}
					}
				}
			}
			r.seen(set, ms[n])
			r.ob(rule, typ+"."+n+": is what was set", ok, p.pos(set.Pos()), det)
		}
	}
	r.need(rule, "properties of messages that can be set", pairs, 25)
}

// comparedWith: the constants a setter allows.
func comparedWith(f *ssa.Function) []constant.Value {
	var out []constant.Value
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if bo, ok := i.(*ssa.BinOp); ok && bo.X == f.Params[1] {
				if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil {
					out = append(out, c.Value)
				}
			}
		}
	}
	return out
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// made: what requests and replies hold when they are made.
func made(p *Prog, r *Report) {
	const rule = "made"
	for _, m := range []struct {
		fn, typ string
		params  []string
		want    map[string]string
	}{
		{"protocol/v1.NewRequest", "protocol/v1.Request", []string{"agent", "sender", "caller", "ttl", "id", "collective"}, map[string]string{
			"Agent": "agent", "SenderID": "sender", "CallerID": "caller", "TTL": "ttl", "RequestID": "id", "Collective": "collective"}},
		{"protocol/v2.NewRequest", "protocol/v2.Request", []string{"agent", "sender", "caller", "ttl", "id", "collective"}, map[string]string{
			"Agent": "agent", "SenderID": "sender", "CallerID": "caller", "TTL": "ttl", "RequestID": "id", "Collective": "collective"}},
		{"protocol/v1.NewReply", "protocol/v1.Reply", []string{"request", "me"}, map[string]string{
			"Agent": "request.Agent()", "SenderID": "me", "RequestID": "request.RequestID()"}},
		{"protocol/v2.NewReply", "protocol/v2.Reply", []string{"request", "me"}, map[string]string{
			"Agent": "request.Agent()", "SenderID": "me", "RequestID": "request.RequestID()"}},
	} {
		f := r.anchor(rule, m.fn)
		if f == nil {
			continue
		}
		ms := p.methodsOf(m.typ)
		for _, n := range sortedKeys(m.want) {
			g := ms[n]
			ok, det, some := true, "is "+m.want[n], false
			t := &interp{p: p, terms: true, once: true, inline: func(g *ssa.Function) bool { return fnPkgPath(g) == fnPkgPath(f) },
				call: gives(map[string]constant.Value{"(protocol.Request).Version": p.pkgConst("protocol", "Request"+strings.ToUpper(m.fn[len("protocol/"):len("protocol/v1")]))})}
			for _, x := range t.run(f, paramTerms(f, m.params...)) {
				if sameConst(x.vals[len(x.vals)-1], isSet) || g == nil {
					continue
				}
				some = true
				if got := reads(p, g, showTerm(x.vals[0]), x.cells); len(got) != 1 || got[0] != m.want[n] {
					ok, det = false, "is "+strings.Join(got, " or ")+", not "+m.want[n]
				}
			}
			if !some {
				ok, det = false, "is never made"
			}
			r.seen(f)
			r.ob(rule, m.fn+": "+n, ok, p.pos(f.Pos()), det)
		}
	}
}

// messages: how messages are made into transports.
func messages(p *Prog, r *Report) {
	const rule = "message"
	sets := func(n string) bool { return strings.HasPrefix(n, "set message.Message.") }
	if f := r.anchor(rule, "message.NewMessageFromRequest"); f != nil {
		reply := p.pkgConst("inter", "ReplyMessageType")
		request := p.pkgConst("inter", "RequestMessageType")
		if reply == nil || request == nil {
			r.need(rule, "message types", 0, 1)
			return
		}
		inner := "newMessage(req.Message() req.Agent() req.Collective() " + constant.StringVal(request) + " nil fw)"
		msg := "newMessage(req.Message() req.Agent() req.Collective() " + constant.StringVal(reply) + " " + inner + "{replyTo={to}} fw)"
		e := paramTerms(f, "req", "", "fw")
		e[f.Params[1]] = constant.MakeString("{to}")
		t := &interp{p: p, terms: true, once: true, inline: func(g *ssa.Function) bool {
			return fnPkgPath(g) == fnPkgPath(f) && g.Signature.Recv() == nil && g.Name() != "newMessage"
		}}
		t.record = func(n string) bool {
			return nameIn(n, "set message.Message.requestID", "set message.Message.ttl", "set message.Message.replyTo", "set message.Message.senderID", "set message.Message.req")
		}
		r.does(rule, t, f, e, "the reply message is for the request", []string{
			"set message.Message.replyTo={to}", "set message.Message.requestID=req.RequestID()", "set message.Message.ttl=req.TTL()",
			"set message.Message.senderID=fw.Configuration().Identity", "set message.Message.req=req"}, msg)
	}
	_ = sets
	if f := r.anchor(rule, "(*message.Message).UncachedReplyTransport"); f != nil {
		e := paramTerms(f, "m")
		e[cellOf(isSetMark+"m.req")] = constant.MakeBool(true)
		r.does(rule, &interp{p: p, terms: true, once: true, inline: helpers(p, f)}, f, e, "the reply is to the request of the message", nil, "m.choria.NewReplyTransportForMessage(m m.req)")
	}
	if f := r.anchor(rule, "(*message.Message).UncachedRequestTransport"); f != nil {
		tr := "m.choria.NewRequestTransportForMessage(ctx m m.protoVersion)"
		r.does(rule, &interp{p: p, terms: true, once: true, inline: func(g *ssa.Function) bool { return fnPkgPath(g) == fnPkgPath(f) }, record: func(n string) bool { return n == "SetReplyTo" }},
			f, paramTerms(f, "m", "ctx"), "the transport says where replies go", []string{tr + ".SetReplyTo(m.replyTo)"}, tr)
	}
	if f := r.anchor(rule, "(*message.Message).Transport"); f != nil {
		for _, m := range []string{"DirectRequestMessageType", "RequestMessageType", "ServiceRequestMessageType", "ReplyMessageType"} {
			for _, cache := range []bool{false, true} {
				e := paramTerms(f, "m", "ctx")
				e[cellOf("m.msgType")] = p.pkgConst("inter", m)
				e[cellOf("m.shouldCacheTransport")] = constant.MakeBool(cache)
				e[cellOf("m.cachedTransport")] = isNil
				want, effects := "m.UncachedRequestTransport(ctx)", []string{"set message.Message.cachedTransport=m.UncachedRequestTransport(ctx)"}
				if m == "ReplyMessageType" {
					want = "m.UncachedReplyTransport()"
				}
				if !cache || m == "ReplyMessageType" {
					effects = nil
				}
				what := fmt.Sprintf("the transport of a %s, cached: %v", strings.TrimSuffix(m, "MessageType"), cache)
				r.does(rule, &interp{p: p, terms: true, once: true, inline: helpers(p, f), record: func(n string) bool { return n == "set message.Message.cachedTransport" }}, f, e, what, effects, want)
				if cache && m != "ReplyMessageType" {
					e[cellOf("m.cachedTransport")] = constant.MakeString("{cached}")
					r.does(rule, &interp{p: p, terms: true, once: true, inline: helpers(p, f), record: func(n string) bool { return n == "set message.Message.cachedTransport" }}, f, e, what+" earlier", nil, "{cached}")
				}
			}
		}
	}
}

// requests: what clients do.
func requests(p *Prog, r *Report) {
	const rule = "client"
	if f := r.anchor(rule, "(*client/client.Client).receiver"); f != nil {
		for _, n := range []int64{1, 2, 3, 10} {
			e := paramTerms(f, "c", "i", "target", "cb")
			e[cellOf(isSetMark+"c.conn")] = constant.MakeBool(true)
			e[cellOf("c.receivers")] = constant.MakeInt64(n)
			grp := ""
			if n > 1 {
				grp = "c.name"
			}
			r.does(rule, &interp{p: p, terms: true, once: true, inline: helpers(p, f), first: map[string]string{"send(": "c.conn.QueueSubscribe("},
				record: func(n string) bool { return nameIn(n, "QueueSubscribe", "send", "go") }}, f, e,
				fmt.Sprintf("one of %d receivers subscribes to the replies", n), []string{"c.conn.QueueSubscribe(c.ctx replies target " + grp + " c.replies)", "go c.msgHandler(cb)", "send(c.receiverReady ?)"})
		}
	}
	if f := r.anchor(rule, "(*client/client.Client).msgHandler"); f != nil {
		t := &interp{p: p, terms: true, inline: helpers(p, f), record: func(n string) bool { return nameIn(n, "recv", "cb") }}
		t.ends = backEdge
		handled := false
		ok, det := true, "is given to the handler"
		for _, x := range t.run(f, paramTerms(f, "c", "cb")) {
			did := x.did("cb(c.ctx <-c.replies)")
			if x.did("recv(c.replies)") != did {
				ok, det = false, "a path has "+strings.Join(notes(x.effects), "; ")
			}
			handled = handled || did && x.ret == nil
		}
		if !handled {
			ok, det = false, "is never given to the handler"
		}
		r.seen(f)
		r.ob(rule, fname(f)+": every message that is received", ok, p.pos(f.Pos()), det)
	}
	if f := r.anchor(rule, "(*client/client.Client).Request"); f != nil {
		rec := func(n string) bool {
			return nameIn(n, "Publish", "QueueSubscribe", "send", "recv", "go", "set client/client.Client.receiverReady")
		}
		for _, handled := range []bool{true, false} {
			e := paramTerms(f, "c", "ctx", "msg", "handler")
			e[cellOf(isSetMark+"c.conn")] = constant.MakeBool(true)
			if e[f.Params[3]] = isNil; handled {
				e[f.Params[3]] = isSet
			}
			want, may := []string{"set client/client.Client.receiverReady=&chan"}, []string{"c.conn.Publish(msg)", "recv(&chan)", "recv(?)"}
			what := "a request without a handler is published"
			if handled {
				what = "a request is published once its replies are received"
				want = append(want, "go c.receiver(0 msg.ReplyTo() set)")
				may = append(may, "go c.receiver(? msg.ReplyTo() set)")
			} else {
				want = append(want, "send(&chan ?)")
			}
			r.mayDo(rule, &interp{p: p, terms: true, once: true, inline: helpers(p, f), record: rec, first: map[string]string{
				"c.conn.Publish(": "recv(&chan)", "go c.receiver(": "set client/client.Client.receiverReady="}}, f, e, what, want, may)
		}
	}
	const mc = "providers/agent/mcorpc/client"
	service := p.pkgConst("inter", "ServiceRequestMessageType")
	if f := r.anchor(rule, "(*"+mc+".RPC).Do"); f != nil {
		rec := func(n string) bool {
			return nameIn(n, "discover", "setupMessage", "doServiceRequest", "doBatchedRequest")
		}
		for _, k := range []string{"DirectRequestMessageType", "RequestMessageType", "ServiceRequestMessageType"} {
			for _, targets := range []string{"", "{targets}"} {
				e := paramTerms(f, "r", "ctx", "action", "payload", "opts")
				e[cellOf("r.opts.RequestType")] = p.pkgConst("inter", k)
				e[cellOf("r.ddl.Metadata.Service")] = constant.MakeBool(sameConst(p.pkgConst("inter", k), service))
				e[cellOf("r.opts.Targets")] = constant.MakeString(targets)
				what := "a " + strings.TrimSuffix(k, "MessageType") + " is made"
				msg := "r.setupMessage(WithCancel(ctx) action payload opts)"
				want := []string{msg, "r.doBatchedRequest(ctx " + msg + " " + msg + "#1)"}
				if k == "ServiceRequestMessageType" {
					want[1] = "r.doServiceRequest(WithCancel(ctx) " + msg + " " + msg + "#1)"
				} else if targets == "" {
					want = append(want, "r.discover(ctx)")
					what += " of the nodes that are discovered"
				} else {
					what += " of its targets"
				}
				r.does(rule, &interp{p: p, terms: true, once: true, inline: func(*ssa.Function) bool { return false }, record: rec}, f, e, what, want)
			}
		}
	}
	if f := r.anchor(rule, "(*"+mc+".RPC).discover"); f != nil {
		rec := func(n string) bool {
			return nameIn(n, "set "+mc+".RequestOptions.Targets", "set "+mc+".RPC.dm", "Discover", "AddAgentFilter")
		}
		named := func(c ssa.CallInstruction) string {
			if g := c.Common().StaticCallee(); g != nil && g.Name() == "New" {
				return g.Pkg.Pkg.Name() + ".New"
			}
			return ""
		}
		for _, dm := range []string{"choria", "broadcast"} {
			e := paramTerms(f, "r", "ctx")
			e[cellOf("r.dm")] = constant.MakeString(dm)
			e[cellOf(isSetMark+"r.opts.Filter")] = constant.MakeBool(true)
			e[cellOf("r.opts.Filter.Compound")] = constant.MakeString("")
			found := "broadcast.New(r.fw).Discover(ctx Filter(r.opts.Filter{Compound=}) Timeout(r.opts.DiscoveryTimeout) Name(r.opts.ConnectionName) Collective(r.opts.Collective))"
			if dm == "choria" {
				found = "puppetdb.New(r.fw).Discover(ctx Filter(r.opts.Filter{Compound=}) Timeout(r.opts.DiscoveryTimeout) Collective(r.opts.Collective))"
			}
			what := "what " + dm + " discovery finds are the targets"
			t := &interp{p: p, terms: true, once: true, inline: helpers(p, f), record: rec, name: named}
			set := "set " + mc + ".RequestOptions.Targets=" + found
			r.does(rule, t, f, e, what, []string{"r.opts.Filter.AddAgentFilter(r.agent)", found, set})
			t.conds = true
			ok, det := true, "are"
			for _, x := range t.run(f, e) {
				if x.did(set) && !x.did("if empty("+found+") false") {
					ok, det = false, "can be when there are none"
				}
			}
			r.ob(rule, fname(f)+": "+what+", when there are any", ok, p.pos(f.Pos()), det)
		}
	}
	if f := r.anchor(rule, "(*"+mc+".RPC).setupMessage"); f != nil {
		rec := func(n string) bool { return nameIn(n, "ConfigureMessage", "NewMessage") }
		for _, s := range []bool{false, true} {
			e := paramTerms(f, "r", "ctx", "action", "payload", "opts")
			e[cellOf("r.ddl.Metadata.Service")] = constant.MakeBool(s)
			typ := p.pkgConst("inter", "RequestMessageType")
			what := "a request is made of the action and the payload"
			if s {
				typ = service
				what = "a service " + what[2:]
			}
			if typ == nil {
				continue
			}
			msg := "r.fw.NewMessage(Marshal(&RPCRequest{Action=action Agent=r.agent Data=Marshal(payload)}) r.agent r.cfg.MainCollective " + constant.StringVal(typ) + " nil)"
			r.does(rule, &interp{p: p, terms: true, once: true, inline: helpers(p, f), record: rec}, f, e, what, []string{msg, "r.opts.ConfigureMessage(" + msg + ")"}, msg)
		}
	}
	configured(p, r, rule)
	in := func(n ...string) *interp {
		return &interp{p: p, terms: true, once: true, inline: func(*ssa.Function) bool { return false }, record: func(x string) bool { return nameIn(x, n...) }}
	}
	if f := r.anchor(rule, "(*"+mc+".RPC).request"); f != nil {
		r.does(rule, in("Request"), f, paramTerms(f, "r", "ctx", "msg", "cl", "stats"), "replies are handled as they arrive",
			[]string{"cl.Request(WithCancel(ctx) msg r.handlerFactory(WithCancel(ctx) WithCancel(ctx)#1 stats))"})
	}
	if f := r.anchor(rule, "(*"+mc+".RPC).doServiceRequest"); f != nil {
		r.does(rule, in("request"), f, paramTerms(f, "r", "ctx", "msg", "cl"), "a service request is made",
			[]string{"r.request(ctx msg cl NewStats())"})
	}
	if f := r.anchor(rule, "(*"+mc+".RPC).doBatchedRequest"); f != nil {
		t := in("request", "SetDiscoveredHosts", "SetDiscoveredNodes")
		t.strict = true
		t.closure = func(c ssa.CallInstruction, a []constant.Value) (ssa.Value, []constant.Value) {
			if mname(c.Common()) == "InGroups" {
				return c.Common().Args[2], []constant.Value{mkTerm("{some of " + showTerm(a[0]) + "}")}
			}
			return nil, nil
		}
		r.does(rule, t, f, paramTerms(f, "r", "ctx", "msg", "cl"), "a request is made of the nodes of each batch",
			[]string{"NewStats().SetDiscoveredNodes({some of r.opts.Targets})", "msg.SetDiscoveredHosts({some of r.opts.Targets})", "r.request(ctx msg{DiscoveredHosts={some of r.opts.Targets}} cl NewStats(){DiscoveredNodes={some of r.opts.Targets}})"})
	}
	hs := p.funcsCalling(mc, "NewReplyFromTransportJSON")
	for _, f := range hs {
		replyHandler(p, r, rule, f)
	}
	r.need(rule, "handlers of replies", len(hs), 1)
}

// replyHandler: every reply that is handled is one that was verified, and it is counted once, for what it is.
func replyHandler(p *Prog, r *Report, rule string, f *ssa.Function) {
	t := &interp{p: p, terms: true, once: true, conds: true, inline: func(*ssa.Function) bool { return false }, record: func(n string) bool {
		return nameIn(n, "PassedRequestInc", "FailedRequestInc", "RecordReceived", "r.opts.Handler", "cancel")
	}}
	e := typedTerms(f, map[string]string{"*providers/agent/mcorpc/client.RPC": "r", "*providers/agent/mcorpc/client.Stats": "stats", "context.CancelFunc": "cancel", "inter.ConnectorMessage": "raw"})
	const reply = "r.fw.NewReplyFromTransportJSON(raw.Data() false)"
	const good = "if ParseReply(" + reply + ").Statuscode==0 true"
	fails := map[string]string{}
	fail := func(k, d string) {
		if fails[k] == "" {
			fails[k] = d
		}
	}
	passed, handled := false, false
	for _, x := range t.run(f, e) {
		at := p.ipos(x.ret)
		pass, failed := x.did("stats.PassedRequestInc()"), x.did("stats.FailedRequestInc()")
		if pass == failed {
			fail("counted", fmt.Sprintf("a path to %s counts it as passed: %v, as failed: %v", at, pass, failed))
		}
		if pass != x.did(good) {
			fail("counted", "a path to "+at+" counts it as passed without looking at its status: "+strings.Join(notes(x.effects), "; "))
		}
		passed = passed || pass
		for _, d := range notes(x.effects) {
			switch {
			case strings.HasPrefix(d, "r.opts.Handler("):
				if d != "r.opts.Handler("+reply+" ParseReply("+reply+"))" && d != "r.opts.Handler("+reply+" nil)" {
					fail("handled", "gives the handler "+d)
				}
				handled = true
			case strings.HasPrefix(d, "stats.RecordReceived("):
				if d != "stats.RecordReceived("+reply+".SenderID())" {
					fail("received", "records "+d)
				}
			case d == "cancel()":
				if !x.did("if stats.All() true") {
					fail("ended", "ends the request on a path to "+at+" on which not all nodes have replied")
				}
			}
		}
		if pass && x.did("if stats.All() true") && !x.did("cancel()") {
			fail("ended", "does not end the request when all have replied")
		}
		if pass && !x.did("stats.RecordReceived("+reply+".SenderID())") && !x.did("if service_request==r.opts.RequestType true") {
			fail("received", "does not record it")
		}
	}
	if !passed {
		fail("counted", "no reply ever passes")
	}
	if !handled {
		fail("handled", "no reply is ever handled")
	}
	r.seen(f)
	for _, k := range []string{"counted", "handled", "received", "ended"} {
		d := fails[k]
		if d == "" {
			d = "holds"
		}
		r.ob(rule, fname(f)+": a reply is "+k, fails[k] == "", p.pos(f.Pos()), d)
	}
}

// funcsCalling: the functions of a package that call something of one of these names.
func (p *Prog) funcsCalling(pkg string, names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if fnPkgPath(f) != modPath+"/"+pkg || f.Synthetic != "" {
			continue
		}
		found := false
		calls(f, func(c ssa.CallInstruction) { found = found || nameIn(mname(c.Common()), names...) })
		if found {
			out = append(out, f)
		}
	}
	return out
}

// backEdge: a loop without an end starts over.
func backEdge(b *ssa.BasicBlock, si int) bool {
	for _, l := range loopsOf(b.Parent()) {
		if l.head == b.Succs[si] && l.body[b] {
			return true
		}
	}
	return false
}

// configured: a message is set up as the options of the request say.
func configured(p *Prog, r *Report, rule string) {
	const opts = "providers/agent/mcorpc/client.RequestOptions"
	f := r.anchor(rule, "(*"+opts+").ConfigureMessage")
	if f == nil {
		return
	}
	rec := func(n string) bool {
		return nameIn(n, "SetFilter", "SetDiscoveredHosts", "SetType", "SetProtocolVersion", "SetReplyTo", "SetCollective", "SetDiscoveredNodes", "set "+opts+".Targets", "set "+opts+".ProcessReplies")
	}
	for _, k := range []string{"DirectRequestMessageType", "RequestMessageType", "ServiceRequestMessageType"} {
		for _, targets := range []string{"", "{targets}"} {
			for _, custom := range []string{"", "{custom}"} {
				typ := p.pkgConst("inter", k)
				if typ == nil {
					continue
				}
				e := paramTerms(f, "o", "msg")
				e[cellOf("o.RequestType")] = typ
				e[cellOf("o.Targets")] = constant.MakeString(targets)
				e[cellOf("o.ReplyTo")] = constant.MakeString(custom)
				to := custom
				if to == "" {
					to = "{standard}"
				}
				want := []string{"msg.SetType(" + constant.StringVal(typ) + ")", "msg.SetProtocolVersion(o.ProtocolVersion)", "msg.SetReplyTo(" + to + ")", "msg.SetCollective(o.Collective)"}
				what := "a " + strings.TrimSuffix(k, "MessageType")
				if k == "ServiceRequestMessageType" {
					want = append(want, "msg.SetFilter(NewFilter())", "msg.SetDiscoveredHosts([])")
				} else {
					limited := "o.limitTargets(msg.DiscoveredHosts())"
					want = append(want, "msg.SetFilter(o.Filter)")
					if targets != "" {
						limited = "o.limitTargets(" + targets + ")"
						want = append(want, "msg.SetDiscoveredHosts("+limited+")")
						what += " of its targets"
					}
					want = append(want, "set "+opts+".Targets="+limited, "o.totalStats.SetDiscoveredNodes("+limited+")")
				}
				if custom != "" {
					want = append(want, "set "+opts+".ProcessReplies=false")
					what += " with its own reply target"
				}
				if k == "ServiceRequestMessageType" && targets != "" {
					// there is no such request
					t := &interp{p: p, terms: true, once: true, inline: func(*ssa.Function) bool { return false }}
					ok, det := true, "fails"
					for _, x := range t.run(f, e) {
						if len(x.vals) == 0 || !sameConst(x.vals[len(x.vals)-1], isSet) {
							ok, det = false, "is allowed at "+p.ipos(x.ret)
						}
					}
					r.ob(rule, fname(f)+": "+what+" with targets", ok, p.pos(f.Pos()), det)
					continue
				}
				t := &interp{p: p, terms: true, once: true, strict: true, inline: func(*ssa.Function) bool { return false }, record: rec, call: gives(map[string]constant.Value{".ReplyTarget": constant.MakeString("{standard}")})}
				r.does(rule, t, f, e, what, want)
			}
		}
	}
	if g := r.anchor(rule, "(*"+opts+").limitTargets"); g != nil {
		limits := 0
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				m, ok := i.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				limits++
				r.at(rule, i, "the number of targets is limited to those there are, and some are left", boundedBy(m.Len, g.Params[1], b, nil, map[ssa.Value]bool{}), "in "+fname(g))
			}
		}
		r.need(rule, "limits of targets", limits, 1)
	}
}

// boundedBy: a number is the length of a list, or one that is positive and not more than it, wherever the block is
// reached (over an edge, if one is given).
func boundedBy(v, list ssa.Value, at, to *ssa.BasicBlock, busy map[ssa.Value]bool) bool {
	isLen := func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		return ok && cname(&c.Call) == "builtin.len" && c.Call.Args[0] == list
	}
	most := func(c ssa.Value, o bool) (atMost, positive bool) {
		b, ok := c.(*ssa.BinOp)
		if !ok {
			return
		}
		op, y := b.Op, b.Y
		if b.X != v {
			if b.Y != v {
				return
			}
			y = b.X
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		if !o {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		if isLen(y) {
			return op == token.LEQ || op == token.LSS || op == token.EQL, false
		}
		if k, ok := constInt(y); ok {
			return false, op == token.GTR && k >= 0 || op == token.GEQ && k >= 1
		}
		return
	}
	if isLen(v) {
		return true
	}
	if busy[v] {
		return false
	}
	busy[v] = true
	defer delete(busy, v)
	if c, ok := v.(*ssa.Call); ok && cname(&c.Call) == "builtin.min" {
		pos := true
		some := false
		for _, a := range c.Call.Args {
			if isLen(a) {
				some = true
			} else {
				pos = pos && positiveAt(a, at)
			}
		}
		return some && pos
	}
	atMost, positive := false, false
	note := func(c ssa.Value, o bool) {
		m, q := most(c, o)
		atMost, positive = atMost || m, positive || q
	}
	if to != nil {
		if x, ok := at.Instrs[len(at.Instrs)-1].(*ssa.If); ok && at.Succs[0] != at.Succs[1] {
			note(x.Cond, at.Succs[0] == to)
		}
	}
	for d := at; d != nil; d = d.Idom() {
		x, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d == at {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(at) {
				note(x.Cond, k == 0)
			}
		}
	}
	if atMost && positive {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for k, e := range ph.Edges {
			if !boundedBy(e, list, ph.Block().Preds[k], ph.Block(), busy) {
				return false
			}
		}
		return true
	}
	return false
}

// positiveAt: a number is compared and found to be positive before a block is reached.
func positiveAt(v ssa.Value, at *ssa.BasicBlock) bool {
	for d := at.Idom(); d != nil; d = d.Idom() {
		x, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := x.Cond.(*ssa.BinOp)
		if !ok || b.X != v {
			continue
		}
		k, isC := constInt(b.Y)
		if !isC {
			continue
		}
		for n, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(at) {
				op := b.Op
				if n == 1 {
					op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
				}
				if op == token.GTR && k >= 0 || op == token.GEQ && k >= 1 {
					return true
				}
			}
		}
	}
	return false
}

// sticky: an error that a function called more than once reports in a variable is not lost to a later call.
func sticky(p *Prog, r *Report) {
	const rule = "sticky"
	n := 0
	for _, f := range p.Funcs {
		if f.Parent() == nil || f.Synthetic != "" || f.Signature.Results().Len() > 0 || !calledInLoop(p, f) {
			continue
		}
		for k, fv := range f.FreeVars {
			pt, ok := fv.Type().Underlying().(*types.Pointer)
			if !ok || !isErr(pt.Elem()) {
				continue
			}
			for _, ref := range *fv.Referrers() {
				st, ok := ref.(*ssa.Store)
				if !ok || st.Addr != fv || !readAfter(f, k) {
					continue
				}
				n++
				safe := neverNil(st.Val)
				for d := st.Block().Idom(); d != nil && !safe; d = d.Idom() {
					x, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					b, ok := x.Cond.(*ssa.BinOp)
					if !ok || !isNilConst(b.Y) && !isNilConst(b.X) {
						continue
					}
					ld, ok := b.X.(*ssa.UnOp)
					if !ok {
						ld, ok = b.Y.(*ssa.UnOp)
					}
					if !ok || ld.X != fv {
						continue
					}
					unset := d.Succs[0]
					if b.Op == token.NEQ {
						unset = d.Succs[1]
					}
					safe = len(unset.Preds) == 1 && unset.Dominates(st.Block())
				}
				r.seen(f)
				r.at(rule, st, "an error of an earlier call is kept", safe, "in "+fname(f)+", which is called for each of many")
			}
		}
	}
	r.need(rule, "errors reported by functions called for each of many", n, 1)
}

// calledInLoop: a function literal is given to a function of the module that calls it in a loop.
func calledInLoop(p *Prog, f *ssa.Function) bool {
	found := false
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			for k, a := range c.Call.Args {
				mc, ok := a.(*ssa.MakeClosure)
				if !ok || mc.Fn != f {
					continue
				}
				for _, g := range p.callees(c) {
					k := k
					if c.Call.IsInvoke() {
						k++
					}
					if k >= len(g.Params) || len(g.Blocks) == 0 {
						continue
					}
					ls := loopsOf(g)
					for _, ref := range *g.Params[k].Referrers() {
						if cc, ok := ref.(ssa.CallInstruction); ok && cc.Common().Value == g.Params[k] {
							for _, l := range ls {
								found = found || l.body[cc.Block()]
							}
						}
					}
				}
			}
		}
	}
	return found
}

// readAfter: what a function literal leaves in a variable it captured is looked at after the call it is given to.
func readAfter(f *ssa.Function, k int) bool {
	for _, b := range f.Parent().Blocks {
		for i, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			v := mc.Bindings[k]
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, i int) bool
			walk = func(b *ssa.BasicBlock, i int) bool {
				for ; i < len(b.Instrs); i++ {
					switch x := b.Instrs[i].(type) {
					case *ssa.Store:
						if x.Addr == v {
							return false
						}
					case *ssa.UnOp:
						if x.Op == token.MUL && x.X == v {
							return true
						}
					}
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						if walk(s, 0) {
							return true
						}
					}
				}
				return false
			}
			if walk(b, i+1) {
				return true
			}
		}
	}
	return false
}
