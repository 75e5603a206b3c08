package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const authT = "broker/network.ChoriaAuth"

// brokerAuth is the shared model of broker authentication.
type brokerAuth struct {
	p     *Prog
	r     *Report
	check *ssa.Function
	ctx   *Ctx
	a     *Facts
	reach map[*ssa.Function]bool
	regs  []ssa.Instruction
}

func (b *brokerAuth) flow() *Flow {
	return &Flow{P: b.p, In: b.reach, Derive: func(c *ssa.Call) []ssa.Value {
		switch cname(&c.Call) {
		case "encoding/hex.DecodeString", "strings.TrimSpace":
			return c.Call.Args[:1]
		case "(*encoding/base64.Encoding).DecodeString":
			return c.Call.Args[1:2]
		}
		return nil
	}}
}

// verifiedClaims reports that a claims pointer only comes from parsers that verify the signature.
func (b *brokerAuth) verifiedClaims(v ssa.Value) bool {
	for i := 0; i < 3; i++ {
		if fa, ok := v.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldKey(fa), "tokens.") {
			v = fa.X
			continue
		}
		break
	}
	fl := b.flow()
	return fl.Only(v, "?nil", "call:tokens.ParseServerToken", "call:tokens.ParseServerTokenWithKeyfile", "call:tokens.ParseClientIDToken", "call:tokens.ParseClientIDTokenWithKeyfile")
}

func keyFlow(b *brokerAuth, v ssa.Value, signers string) bool {
	ls := b.flow().Labels(v)
	delete(ls, "?nil")
	if len(ls) == 0 {
		return false
	}
	for l := range ls {
		if !nameIn(l, "field:"+authT+"."+signers, "field:"+authT+".issuerTokens", "field:"+authT+".tokenCache") {
			return false
		}
	}
	return ls["field:"+authT+"."+signers] || ls["field:"+authT+".issuerTokens"]
}

func newBrokerAuth(p *Prog, r *Report) *brokerAuth {
	b := &brokerAuth{p: p, r: r}
	b.check = r.anchor("anchor", "(*"+authT+").Check")
	if b.check == nil {
		return nil
	}
	// the reach does not depend on facts, so compute it first
	pre := newSpec(p).facts().From(b.check)
	b.reach = pre.Reach
	fl := b.flow()
	tokenArg := func(v ssa.Value) bool { return fl.Only(v, "field:natsd.ClientOpts.Token") }

	s := newSpec(p)
	s.result("tok.client", 1, Nil, func(c ssa.CallInstruction) bool {
		a := c.Common().Args
		t, ok := constBool(a[2])
		return ok && t && tokenArg(a[0]) && keyFlow(b, a[1], "clientJwtSigners")
	}, "tokens.ParseClientIDToken", "tokens.ParseClientIDTokenWithKeyfile")
	s.result("tok.server", 1, Nil, func(c ssa.CallInstruction) bool {
		a := c.Common().Args
		return tokenArg(a[0]) && keyFlow(b, a[1], "serverJwtSigners")
	}, "tokens.ParseServerToken", "tokens.ParseServerTokenWithKeyfile")
	s.result("tok.prov", 1, Nil, func(c ssa.CallInstruction) bool {
		a := c.Common().Args
		return tokenArg(a[0]) && keyFlow(b, a[1], "issuerTokens")
	}, "tokens.ParseProvisioningToken")
	s.result("tok.prov", 1, Nil, func(c ssa.CallInstruction) bool {
		a := c.Common().Args
		return tokenArg(a[0]) && fl.Only(a[1], "field:"+authT+".provisioningTokenSigner")
	}, "tokens.ParseProvisioningTokenWithKeyfile")
	s.result("nonce", 0, True, func(c ssa.CallInstruction) bool {
		a := c.Common().Args
		if !fl.Only(a[0], "field:tokens.StandardClaims.PublicKey") {
			return false
		}
		for _, o := range fl.From(a[0]) {
			if !b.verifiedClaims(loadedBase(o.V)) {
				return false
			}
		}
		return fl.Only(a[1], "call:(natsd.ClientAuthentication).GetNonce") && fl.Only(a[2], "field:natsd.ClientOpts.Sig")
	}, "crypto/ed25519.Verify")
	s.result("tls.present", 0, NonNil, nil, "(natsd.ClientAuthentication).GetTLSConnectionState")
	s.result("!tls.present", 0, Nil, nil, "(natsd.ClientAuthentication).GetTLSConnectionState")
	s.cond(func(v ssa.Value, o Outcome) []string {
		var out []string
		if x, empty, ok := emptiness(v, o); ok {
			switch {
			case !empty && loadedField(x) == "crypto/tls.ConnectionState.VerifiedChains":
				out = append(out, "tls.verified", "tls.present")
			case fl.Only(x, "field:natsd.ClientOpts.Token"):
				if empty {
					out = append(out, "no.token")
				} else {
					out = append(out, "!no.token")
				}
			case !empty && fl.Only(x, "field:"+authT+".systemPass"):
				out = append(out, "syspass.set")
			case !empty && fl.Only(x, "field:"+authT+".systemUser"):
				out = append(out, "sysuser.set")
			case !empty && fl.Only(x, "field:"+authT+".provPass"):
				out = append(out, "provpass.set")
			case fl.Only(x, "field:"+authT+".issuerTokens"):
				if empty {
					out = append(out, "!issuers")
				} else {
					out = append(out, "issuers")
				}
			case !empty && loadedField(x) == "tokens.ServerClaims.Collectives":
				out = append(out, "collectives")
			}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if cs, ok := constString(pr[1]); ok && cs == "pipe" {
					if c, _ := callOf(pr[0]); c != nil && mname(&c.Call) == "String" {
						out = append(out, "pipe")
					}
				}
				if n, ok := constInt(pr[1]); ok && n == 1 {
					if c, _ := callOf(pr[0]); c != nil && cname(&c.Call) == "crypto/subtle.ConstantTimeCompare" {
						out = append(out, b.secret(c.Call.Args[0], c.Call.Args[1])...)
					}
				}
				if n, ok := constInt(pr[1]); ok && n == 0 {
					if c, _ := callOf(pr[0]); c != nil && mname(&c.Call) == "Kind" {
						out = append(out, "kind.client")
					}
				}
			}
			out = append(out, b.secret(x, y)...)
		}
		if x, y, eq, ok := equality(v, o); ok && !eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if n, ok := constInt(pr[1]); ok && n == 0 {
					// it gives only 0 and 1
					if c, _ := callOf(pr[0]); c != nil && cname(&c.Call) == "crypto/subtle.ConstantTimeCompare" {
						out = append(out, b.secret(c.Call.Args[0], c.Call.Args[1])...)
					}
				}
			}
		}
		return out
	})
	for _, f := range []string{"SystemUser", "OrgAdmin", "ServerProvisioner", "StreamsAdmin", "StreamsUser", "EventsViewer", "ElectionUser", "Governor", "FleetManagement", "SignedFleetManagement"} {
		s.field("perm."+f, "tokens.ClientPermissions."+f, True)
	}
	for _, f := range []string{"ServiceHost", "Submission", "Governor", "Streams"} {
		s.field("sperm."+f, "tokens.ServerPermissions."+f, True)
	}
	s.field("not.tls.broker", authT+".isTLS", False)
	s.field("tls.broker", authT+".isTLS", True)
	s.field("prov.without.token", authT+".provWithoutToken", True)
	s.field("issuer.tls.access", authT+".allowIssuerBasedTLSAccess", True)
	s.field("servers.allowed", authT+".denyServers", False)
	s.exec(func(i ssa.Instruction) []string {
		if c, ok := i.(*ssa.Call); ok && isRegister(c) {
			return []string{"registered"}
		}
		st, ok := i.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		switch fieldKey(fa) {
		case "natsd.User.Username":
			if fl.Only(st.Val, "field:tokens.ClientIDClaims.CallerID", "field:tokens.ServerClaims.ChoriaIdentity") {
				return []string{"id.claims"}
			}
		case "natsd.User.Account":
			if fl.Only(st.Val, "field:"+authT+".provisioningAccount") {
				return []string{"acct.prov"}
			}
		case "natsd.Permissions.Subscribe":
			return []string{"permset.sub"}
		case "natsd.Permissions.Publish":
			return []string{"permset.pub"}
		}
		return nil
	})
	b.a = s.facts()
	b.ctx = b.a.From(b.check)
	b.ctx.instrs(func(i ssa.Instruction) {
		if c, ok := i.(*ssa.Call); ok && isRegister(c) {
			b.regs = append(b.regs, i)
		}
	})
	for f := range b.reach {
		if strings.HasPrefix(fnPkgPath(f), modPath+"/broker") {
			r.seen(f)
		}
	}
	return b
}

func isRegister(c *ssa.Call) bool {
	return cname(&c.Call) == "(natsd.ClientAuthentication).RegisterUser"
}

// secret names the credential a comparison of two values checks.
func (b *brokerAuth) secret(x, y ssa.Value) []string {
	fl := b.flow()
	if partial(x) || partial(y) {
		return nil
	}
	for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
		switch {
		case fl.Only(pr[0], "field:natsd.ClientOpts.Username") && fl.Only(pr[1], "field:"+authT+".systemUser"):
			return []string{"sysuser"}
		case fl.Only(pr[0], "field:natsd.ClientOpts.Password") && fl.Only(pr[1], "field:"+authT+".systemPass"):
			return []string{"syspass"}
		case fl.Only(pr[0], "field:natsd.ClientOpts.Password") && fl.Only(pr[1], "field:"+authT+".provPass"):
			return []string{"provpass"}
		}
	}
	return nil
}

// partial: only a part of a text is looked at.
func partial(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Low != nil || x.High != nil || partial(x.X)
	case *ssa.Convert:
		return partial(x.X)
	case *ssa.ChangeType:
		return partial(x.X)
	}
	return false
}

var (
	bTokenOwner = anyOf(has("tok.client", "nonce", "kind.client"), has("tok.server", "nonce", "kind.client"))
	bNoToken    = allOf(anyOf(has("no.token"), has("!tls.present")), anyOf(has("tls.verified"), has("pipe")))
	bDefault    = anyOf(bTokenOwner, bNoToken)
	bSystem     = allOf(has("sysuser", "syspass", "syspass.set"), anyOf(has("tls.verified"), has("pipe"), allOf(has("tok.client", "nonce", "kind.client"), anyOf(has("perm.SystemUser"), has("perm.OrgAdmin")))))
	bProvUser   = allOf(has("provpass", "provpass.set"), anyOf(
		allOf(has("issuers"), anyOf(has("tok.client", "perm.ServerProvisioner"), has("no.token", "prov.without.token"))),
		has("tls.verified")))
	bProvServer = has("tok.prov", "acct.prov", "permset.sub", "permset.pub")
	bOnWire     = anyOf(has("tls.present"), has("pipe"), has("not.tls.broker"))
)

func init() {
	register(&Check{
		ID: "B01", Level: "proof",
		Rule:        "every path from the broker's authentication entry point to the registration of a user, and to returning true, passes the success branch of a token parse by a trusted key and of the ed25519 check of the server nonce by the key in those claims, or carries no token and is verified TLS or the in-process pipe, or meets the system or provisioning credentials; the identity stored for the user comes from claims those checks covered",
		Explanation: "must-facts over SSA, grouped by correlated tests and followed through every call chain from Check; argument provenance decides which key, nonce, signature and token each verification used",
		Assume:      []string{"the token parsers of choria-io/tokens verify signature, expiry and purpose and crypto/ed25519 is sound", "fields of the authenticator are not changed after the broker is configured"},
		Run: func(p *Prog, r *Report) {
			b := newBrokerAuth(p, r)
			if b == nil {
				return
			}
			if !r.need("register", "user registrations", len(b.regs), 1) {
				return
			}
			for _, i := range b.regs {
				r.require("register", b.ctx, i, "RegisterUser", anyOf(bDefault, bSystem, bProvUser, bProvServer), "a token parsed with a trusted key whose holder signed the nonce, or no token on verified TLS or the pipe, or system or provisioning credentials")
				r.require("wire", b.ctx, i, "RegisterUser over TLS", bOnWire, "TLS state present when the broker is a TLS broker, unless in-process")
			}
			n := r.returnsRequire("admit", b.a, b.check, 0, True, allOf(has("registered"), anyOf(bDefault, bSystem, bProvUser, bProvServer)), "returns admitted", "a registered user that met one of the admission rules")
			r.need("admit", "admitting returns", n, 1)
			// identity
			ids := 0
			b.ctx.instrs(func(i ssa.Instruction) {
				st, ok := i.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != "natsd.User.Username" {
					return
				}
				ids++
				for _, o := range b.flow().From(st.Val) {
					switch o.Label {
					case "field:natsd.ClientOpts.Username":
						r.at("identity", i, "username from connect options", true, "")
					case "field:tokens.ClientIDClaims.CallerID":
						r.at("identity", i, "username from claims of a verified client token", b.verifiedClaims(loadedBase(o.V)), "")
						r.require("identity", b.ctx, i, "caller identity", has("tok.client", "nonce"), "a verified client token and nonce signature")
					case "field:tokens.ServerClaims.ChoriaIdentity":
						r.at("identity", i, "username from claims of a verified server token", b.verifiedClaims(loadedBase(o.V)), "")
						r.require("identity", b.ctx, i, "server identity", has("tok.server", "nonce"), "a verified server token and nonce signature")
					default:
						r.at("identity", i, "username from "+o.Label, false, "the user name is taken from something other than the connect options or verified claims")
					}
				}
			})
			r.need("identity", "user name assignments", ids, 1)
			for _, i := range b.regs {
				r.requireFull("identity", b.ctx, i, "RegisterUser with a token", func(s Set) bool {
					return s.has("acct.prov") || bSystem(s) || !(s.has("tok.client") || s.has("tok.server")) || s.has("id.claims")
				}, "the identity in the verified token to be recorded as the user name")
			}
			// what was presented is compared as it was presented
			b.ctx.instrs(func(i ssa.Instruction) {
				st, ok := i.(*ssa.Store)
				if !ok {
					return
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldKey(fa), "natsd.ClientOpts.") {
					r.at("presented", i, "what the connection presented", false, fieldKey(fa)+" is replaced before it is judged")
				}
			})
			// the key cache maps a key to its own decoding
			cache := 0
			b.ctx.instrs(func(i ssa.Instruction) {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok || !b.flow().Any(mu.Map, "field:"+authT+".tokenCache") {
					return
				}
				cache++
				fl := &Flow{P: p, NoCallers: true, Derive: b.flow().Derive, Stop: func(v ssa.Value) string {
					if v == mu.Key {
						return "key"
					}
					return ""
				}}
				r.at("key-cache", i, "cached key", fl.Only(mu.Value, "key"), "the cached key must be the decoding of the text it is cached under")
			})
			r.note("key cache updates: %d", cache)
			if f := p.fn("broker/network.NewServer"); f != nil {
				brokerConfig(p, r, f)
			} else {
				r.anchor("config", "broker/network.NewServer")
			}
		},
	})
	register(&Check{
		ID: "B02", Level: "proof",
		Rule:        "every path that places a connection in the system account, or in the provisioning account without provisioning-server limits, compared the configured non-empty credentials and met the transport or token condition",
		Explanation: "must-facts over SSA along every call chain from the authentication entry point to each assignment of a privileged account and to each registration that follows it",
		Run: func(p *Prog, r *Report) {
			b := newBrokerAuth(p, r)
			if b == nil {
				return
			}
			fl := b.flow()
			nsys, nprov := 0, 0
			b.ctx.instrs(func(i ssa.Instruction) {
				st, ok := i.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != "natsd.User.Account" {
					return
				}
				for l := range fl.Labels(st.Val) {
					switch l {
					case "field:" + authT + ".systemAccount":
						nsys++
						r.require("system-account", b.ctx, i, "assign system account", bSystem, "matching non-empty system user and password, and verified TLS, the pipe, or a verified token with system or org-admin rights")
					case "field:" + authT + ".provisioningAccount":
						nprov++
						r.at("provisioning-account", i, "assign provisioning account", true, "")
					case "field:" + authT + ".choriaAccount", "?nil":
					default:
						r.at("account", i, "account from "+l, false, "the account is not one of the three the broker manages")
					}
				}
			})
			r.need("system-account", "system account assignments", nsys, 1)
			r.need("provisioning-account", "provisioning account assignments", nprov, 1)
			for _, i := range b.regs {
				// with the provisioning account assigned, either limits were set after a provisioning token verified, or the provisioner authenticated
				r.requireFull("register", b.ctx, i, "RegisterUser", func(s Set) bool {
					if s.has("acct.prov") {
						return bProvUser(s) || bProvServer(s)
					}
					return bSystem(s) || bDefault(s)
				}, "provisioner credentials, a verified provisioning token with limits set, system credentials or an ordinary verified connection")
			}
		},
	})
	register(&Check{
		ID: "B03", Level: "proof",
		Rule:        "a connection admitted on a provisioning token alone is in the provisioning account with both permission lists set to the provisioning subjects, and nothing else grants it subjects",
		Explanation: "must-facts to each registration, and the set of subject strings that can flow into permission lists at program points that require a provisioning token",
		Run: func(p *Prog, r *Report) {
			b := newBrokerAuth(p, r)
			if b == nil {
				return
			}
			n := 0
			for _, i := range b.regs {
				// registrations reached with a provisioning token
				if !b.ctx.Some(i, "tok.prov") {
					continue
				}
				n++
				r.requireFull("isolate", b.ctx, i, "RegisterUser on a provisioning token", func(s Set) bool {
					return !s.has("tok.prov") || bProvServer(s)
				}, "the provisioning account and both permission lists set")
				// the account and the limits are not replaced after being set
			}
			r.need("isolate", "registrations on a provisioning token", n, 1)
			for _, i := range b.regs {
				r.requireFull("account", b.ctx, i, "RegisterUser in the provisioning account", func(s Set) bool {
					return !s.has("acct.prov") || bProvUser(s) || bProvServer(s)
				}, "for a connection placed in the provisioning account, provisioner credentials or a verified provisioning token and its limits")
			}
			g := b.grants()
			np := 0
			for _, x := range g {
				if !strings.HasPrefix(x.subject, "provisioning.") && x.subject != "choria.lifecycle.>" {
					continue
				}
				if strings.HasPrefix(x.subject, "provisioning.") {
					np++
				}
				ok := nameIn(x.dir+" "+x.kind+" "+x.subject,
					"Subscribe Allow provisioning.node.>", "Subscribe Allow provisioning.broadcast.agent.discovery", "Subscribe Allow provisioning.broadcast.agent.rpcutil", "Subscribe Allow provisioning.broadcast.agent.choria_util", "Subscribe Allow provisioning.broadcast.agent.choria_provision",
					"Publish Allow choria.lifecycle.>", "Publish Allow provisioning.reply.>", "Publish Allow provisioning.registration.>",
					"Subscribe Deny choria.lifecycle.>", "Publish Deny choria.lifecycle.>")
				r.ob("subjects", fmt.Sprintf("%s: %s %s %s", fname(x.at.Parent()), x.dir, x.kind, x.subject), ok, p.ipos(x.at), "a subject in the provisioning name space is granted in a way the provisioning rules do not have")
			}
			r.need("subjects", "provisioning subjects", np, 6)
			for _, x := range g {
				if x.kind != "Allow" {
					continue
				}
				// nothing outside the table is granted where the provisioning token is what let the connection in
				if !b.ctx.Some(x.at, "tok.prov") {
					continue
				}
				ok := strings.HasPrefix(x.subject, "provisioning.") || (x.dir == "Publish" && x.subject == "choria.lifecycle.>")
				r.ob("only", fmt.Sprintf("%s: %s %s", fname(x.at.Parent()), x.dir, x.subject), ok, p.ipos(x.at), "a connection admitted on a provisioning token is granted a subject outside provisioning")
			}
		},
	})
}

// grant is a subject that can flow into a permission list.
type grant struct {
	dir, kind, subject string
	at                 ssa.Instruction
}

// grants finds all subject strings that can end up in a permission list, with where each is put in a list.
func (b *brokerAuth) grants() []grant {
	var out []grant
	seen := map[string]bool{}
	for _, k := range []string{"Allow", "Deny"} {
		for _, st := range b.p.fieldSt["natsd.SubjectPermission."+k] {
			if !b.reach[st.Parent()] {
				continue
			}
			for _, dir := range b.dirs(st.Addr.(*ssa.FieldAddr).X) {
				b.subjects(st.Val, st, func(subj string, at ssa.Instruction) {
					key := fmt.Sprint(dir, k, subj, at.Parent(), at.Block().Index, at.Pos())
					if !seen[key] {
						seen[key] = true
						out = append(out, grant{dir, k, subj, at})
					}
				})
			}
		}
	}
	return out
}

// dirs says which of a user's lists a SubjectPermission is.
func (b *brokerAuth) dirs(base ssa.Value) []string {
	if f := loadedField(base); strings.HasPrefix(f, "natsd.Permissions.") {
		return []string{strings.TrimPrefix(f, "natsd.Permissions.")}
	}
	d := map[string]bool{}
	// where is the value stored
	var follow func(v ssa.Value, depth int)
	follow = func(v ssa.Value, depth int) {
		if depth > 6 || v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldKey(fa), "natsd.Permissions.") {
						d[strings.TrimPrefix(fieldKey(fa), "natsd.Permissions.")] = true
					}
				}
			case *ssa.Phi:
				follow(x, depth+1)
			case *ssa.Return:
				for i, rv := range x.Results {
					if rv != v {
						continue
					}
					for _, s := range b.p.sites[x.Parent()] {
						c, ok := s.(*ssa.Call)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							follow(c, depth+1)
							continue
						}
						for _, rr := range *c.Referrers() {
							if e, ok := rr.(*ssa.Extract); ok && e.Index == i {
								follow(e, depth+1)
							}
						}
					}
				}
			case ssa.CallInstruction:
				for _, g := range b.p.callees(x) {
					for i, a := range x.Common().Args {
						if a == v && i < len(g.Params) && b.p.InRepo[g] {
							follow(g.Params[i], depth+1)
						}
					}
				}
			}
		}
	}
	follow(base, 0)
	if p, ok := base.(*ssa.Parameter); ok && len(d) == 0 {
		for _, o := range (&Flow{P: b.p, In: b.reach, Stop: func(v ssa.Value) string {
			if f := loadedField(v); strings.HasPrefix(f, "natsd.Permissions.") {
				return f
			}
			return ""
		}}).From(p) {
			if strings.HasPrefix(o.Label, "natsd.Permissions.") {
				d[strings.TrimPrefix(o.Label, "natsd.Permissions.")] = true
			}
		}
	}
	if len(d) == 0 {
		return []string{"?"}
	}
	return sortedKeys(d)
}

// subjects walks a []string value back to the strings put into it.
func (b *brokerAuth) subjects(v ssa.Value, where ssa.Instruction, visit func(string, ssa.Instruction)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, at ssa.Instruction)
	elem := func(v ssa.Value, at ssa.Instruction) {
		if s, ok := constString(v); ok {
			visit(s, at)
			return
		}
		if s, _, ok := formatted(v); ok {
			visit(s, at)
			return
		}
		for l := range b.flow().Labels(v) {
			visit("<"+l+">", at)
		}
	}
	walk = func(v ssa.Value, at ssa.Instruction) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for i, e := range x.Edges {
				p := x.Block().Preds[i]
				walk(e, p.Instrs[len(p.Instrs)-1])
			}
		case *ssa.Slice:
			walk(x.X, x)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.IndexAddr:
					for _, rr := range *y.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == y {
							elem(st.Val, st)
						}
					}
				case *ssa.Store:
					if y.Addr == x {
						walk(y.Val, y)
					}
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				for _, a := range x.Call.Args {
					walk(a, x)
				}
				return
			}
			b.walkResults(x, 0, walk)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				b.walkResults(c, x.Index, walk)
			}
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				if short(g.String()) == "broker/network.allSubjects" || b.globalIsAll(g) {
					visit(">", at)
				} else {
					visit("<global:"+short(g.String())+">", at)
				}
				return
			}
			if f := loadedField(x); f != "" {
				if strings.HasPrefix(f, "natsd.SubjectPermission.") {
					return // appending to what the list already holds
				}
				visit("<field:"+f+">", at)
				return
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				walk(al, at)
				return
			}
			visit("<?>", at)
		case *ssa.Parameter:
			for _, s := range b.p.sites[x.Parent()] {
				if !b.reach[s.Parent()] {
					continue
				}
				for i, pa := range x.Parent().Params {
					if pa == x && i < len(s.Common().Args) {
						walk(s.Common().Args[i], s)
					}
				}
			}
		default:
			visit("<?>", at)
		}
	}
	walk(v, where)
}

func (b *brokerAuth) walkResults(c *ssa.Call, idx int, walk func(ssa.Value, ssa.Instruction)) {
	for _, g := range b.p.callees(c) {
		for _, ret := range b.a.returns(g) {
			if idx < len(ret.Results) {
				walk(ret.Results[idx], ret)
			}
		}
	}
}

// globalIsAll: a package variable initialised to the list holding just ">".
func (b *brokerAuth) globalIsAll(g *ssa.Global) bool {
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	ok := false
	for _, blk := range init.Blocks {
		for _, i := range blk.Instrs {
			if st, is := i.(*ssa.Store); is && st.Addr == g {
				if sl, is := st.Val.(*ssa.Slice); is {
					if al, is := sl.X.(*ssa.Alloc); is {
						for _, r := range *al.Referrers() {
							if ia, is := r.(*ssa.IndexAddr); is {
								for _, rr := range *ia.Referrers() {
									if s2, is := rr.(*ssa.Store); is {
										s, _ := constString(s2.Val)
										ok = s == ">"
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return ok
}

// varargs lists the elements of a variadic argument built at the call site.
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	idx := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, _ := constInt(ia.Index)
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
				idx[n] = st.Val
			}
		}
	}
	var out []ssa.Value
	for i := int64(0); i < int64(len(idx)); i++ {
		out = append(out, idx[i])
	}
	return out
}

// fmtAt finds the Sprintf that made the string stored at an instruction.
func fmtAt(i ssa.Instruction) ([]ssa.Value, bool) {
	st, ok := i.(*ssa.Store)
	if !ok {
		return nil, false
	}
	_, vs, ok := formatted(st.Val)
	return vs, ok
}

// formatted: a text that is put together, as a format and what is put into it.
func formatted(v ssa.Value) (string, []ssa.Value, bool) {
	if c, _ := callOf(v); c != nil && cname(&c.Call) == "fmt.Sprintf" {
		if s, ok := constString(c.Call.Args[0]); ok {
			return s, varargs(c.Call.Args[1]), true
		}
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return "", nil, false
	}
	f := ""
	var vs []ssa.Value
	for _, x := range []ssa.Value{b.X, b.Y} {
		if s, ok := constString(x); ok {
			f += s
			continue
		}
		if g, more, ok := formatted(x); ok {
			f += g
			vs = append(vs, more...)
			continue
		}
		if c, _ := callOf(x); c != nil && cname(&c.Call) == "encoding/hex.EncodeToString" {
			f += "%x"
			vs = append(vs, c.Call.Args[0])
			continue
		}
		f += "%s"
		vs = append(vs, x)
	}
	return f, vs, true
}

func brokerConfig(p *Prog, r *Report, f *ssa.Function) {
	cfg := func(n string) string { return "config.ChoriaPluginConfig." + n }
	s := newSpec(p)
	s.exec(func(i ssa.Instruction) []string {
		st, ok := i.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		switch fieldKey(fa) {
		case "natsd.Options.CustomClientAuthentication":
			if mi, ok := st.Val.(*ssa.MakeInterface); ok && typeName(mi.X.Type()) == authT {
				return []string{"auth.installed"}
			}
		case "natsd.Options.AlwaysEnableNonce":
			if t, ok := constBool(st.Val); ok && t {
				return []string{"nonce.enabled"}
			}
		}
		return nil
	})
	s.cond(func(v ssa.Value, o Outcome) []string {
		x, empty, ok := emptiness(v, o)
		if !ok {
			return nil
		}
		n := map[string]string{
			cfg("IssuerNames"): "issuernames", cfg("NetworkClientTokenSigners"): "clientsigners", cfg("NetworkServerTokenSigners"): "serversigners", cfg("ChoriaSecurityTrustedSigners"): "trusted", cfg("ChoriaSecurityCA"): "ca",
			authT + ".clientJwtSigners": "a.client", authT + ".serverJwtSigners": "a.server", authT + ".issuerTokens": "a.issuers",
		}[loadedField(x)]
		if n == "" {
			return nil
		}
		if empty {
			return []string{"no." + n}
		}
		return []string{"has." + n}
	})
	s.field("tls", authT+".isTLS", True)
	s.result("tls", 0, True, nil, "(*broker/network.Server).isClientTlSBroker")
	a := s.facts()
	ctx := a.From(f)
	n := r.returnsRequire("config", a, f, 1, Nil, has("auth.installed"), "broker constructed", "this authenticator installed")
	r.need("config", "successful returns of the constructor", n, 1)
	r.returnsRequire("config", a, f, 1, Nil, anyOf(has("no.issuernames"), has("no.clientsigners", "no.serversigners", "no.trusted")), "broker constructed with one kind of trust root", "no issuers, or no other token signers next to issuers")
	r.returnsRequire("config", a, f, 1, Nil, anyOf(has("nonce.enabled"), has("no.a.client", "no.a.server", "no.a.issuers")), "broker constructed with nonces", "nonces enabled whenever tokens can be verified")
	want := map[string]string{
		"clientJwtSigners": "field:" + cfg("NetworkClientTokenSigners"), "serverJwtSigners": "field:" + cfg("NetworkServerTokenSigners"),
		"provPass": "field:" + cfg("NetworkProvisioningClientPassword"), "provisioningTokenSigner": "field:" + cfg("NetworkProvisioningTokenSignerFile"),
		"systemUser": "field:" + cfg("NetworkSystemUsername"), "systemPass": "field:" + cfg("NetworkSystemPassword"),
		"denyServers": "field:" + cfg("NetworkDenyServers"), "clientAllowList": "field:" + cfg("NetworkAllowedClientHosts"), "provWithoutToken": "field:" + cfg("NetworkProvisioningWithoutToken"),
		"choriaAccount": "field:broker/network.Server.choriaAccount", "systemAccount": "field:broker/network.Server.systemAccount", "provisioningAccount": "field:broker/network.Server.provisioningAccount",
	}
	for _, k := range sortedKeys(want) {
		got := 0
		for _, st := range p.fieldSt[authT+"."+k] {
			if !ctx.Reach[st.Parent()] {
				continue
			}
			got++
			fl := &Flow{P: p}
			r.at("config", st, "authenticator field "+k, fl.Only(st.Val, want[k]), fmt.Sprintf("must come from %s, comes from %v", want[k], sortedKeys(fl.Labels(st.Val))))
			if nameIn(k, "provPass", "provisioningAccount", "provisioningTokenSigner", "provWithoutToken", "clientJwtSigners", "serverJwtSigners") {
				r.require("config", ctx, st, "authenticator field "+k+" on a TLS broker", has("tls"), "a TLS broker")
			}
		}
		r.need("config", "assignments of "+k, got, 1)
	}
	for _, st := range p.fieldSt[authT+".allowIssuerBasedTLSAccess"] {
		if t, ok := constBool(st.Val); ok && !t {
			continue
		}
		r.require("config", ctx, st, "issuer mode TLS access", has("has.ca"), "a CA to be configured")
	}
	for _, st := range p.fieldSt[authT+".isTLS"] {
		c, _ := callOf(st.Val)
		r.at("config", st, "authenticator field isTLS", c != nil && cname(&c.Call) == "(*broker/network.Server).isClientTlSBroker", "must be the broker's own view of client TLS")
	}
}

type subjectRule struct {
	pred func(Set) bool
	want string
	args [][]string // allowed origins of the format arguments
}

func init() {
	coll := []string{"field:tokens.ServerClaims.Collectives"}
	ident := []string{"field:tokens.ServerClaims.ChoriaIdentity"}
	server := has("tok.server", "nonce", "collectives", "servers.allowed")
	client := has("tok.client", "nonce")
	and := func(p func(Set) bool, fs ...string) func(Set) bool { return allOf(p, has(fs...)) }
	// client tokens are only used for default connections; the caller may be empty for address-listed legacy clients
	cperm := func(fs ...string) func(Set) bool { return and(client, fs...) }
	table := map[string]subjectRule{}
	add := func(k string, pred func(Set) bool, want string, args ...[]string) {
		table[k] = subjectRule{pred, want, args}
	}
	prov := func(Set) bool { return true } // decided by B03
	for _, x := range []string{"Subscribe Allow provisioning.node.>", "Subscribe Allow provisioning.broadcast.agent.discovery", "Subscribe Allow provisioning.broadcast.agent.rpcutil", "Subscribe Allow provisioning.broadcast.agent.choria_util", "Subscribe Allow provisioning.broadcast.agent.choria_provision", "Publish Allow provisioning.reply.>", "Publish Allow provisioning.registration.>"} {
		add(x, prov, "the provisioning rules")
	}
	// clients
	callerHash := []string{"call:crypto/md5.Sum", "call:crypto/sha256.Sum256"}
	add("Subscribe Allow *.reply.>", anyOf(client, has("no.token")), "a verified client token or a legacy client without a token")
	add("Subscribe Allow *.reply.%x.>", anyOf(client, has("no.token")), "a verified client token", callerHash)
	add("Publish Allow $SYS.REQ.USER.INFO", anyOf(client, has("no.token")), "a verified client token")
	add("Subscribe Allow <field:tokens.ClientIDClaims.AdditionalSubscribeSubjects>", client, "a verified client token")
	add("Publish Allow <field:tokens.ClientIDClaims.AdditionalPublishSubjects>", client, "a verified client token")
	add("Subscribe Allow $JS.EVENT.>", cperm("perm.StreamsAdmin"), "the streams admin permission")
	add("Publish Allow $JS.>", cperm("perm.StreamsAdmin"), "the streams admin permission")
	add("Subscribe Allow %s.republish.>", anyOf(cperm("perm.StreamsUser"), and(server, "sperm.Streams")), "a streams permission", []string{"field:tokens.ClientIDClaims.OrganizationUnit", "field:tokens.ServerClaims.OrganizationUnit", "?zero"})
	for _, x := range []string{"$JS.API.INFO", "$JS.API.STREAM.NAMES", "$JS.API.STREAM.LIST", "$JS.API.STREAM.INFO.*", "$JS.API.STREAM.MSG.GET.*", "$JS.API.STREAM.MSG.DELETE.*", "$JS.API.DIRECT.GET.*", "$JS.API.DIRECT.GET.*.>", "$JS.API.CONSUMER.CREATE.*", "$JS.API.CONSUMER.CREATE.*.>", "$JS.API.CONSUMER.DURABLE.CREATE.*.*", "$JS.API.CONSUMER.DELETE.*.*", "$JS.API.CONSUMER.NAMES.*", "$JS.API.CONSUMER.LIST.*", "$JS.API.CONSUMER.INFO.*.*", "$JS.API.CONSUMER.MSG.NEXT.*.*", "$KV.>", "$O.>"} {
		add("Publish Allow "+x, cperm("perm.StreamsUser"), "the streams user permission")
	}
	for _, x := range []string{"$JS.ACK.>", "$JS.FC.>"} {
		add("Publish Allow "+x, anyOf(cperm("perm.StreamsUser"), and(server, "sperm.Streams")), "a streams permission")
	}
	for _, x := range []string{"choria.lifecycle.event.>", "choria.machine.watcher.>", "choria.machine.transition", "choria.lifecycle.event.*.provision_mode_server"} {
		add("Subscribe Allow "+x, cperm("perm.EventsViewer"), "the events viewer permission")
	}
	for _, x := range []string{"*.governor.*", "choria.lifecycle.event.governor.>"} {
		add("Publish Allow "+x, allOf(cperm("perm.Governor"), anyOf(has("perm.StreamsUser"), has("perm.StreamsAdmin"))), "the governor permission and a streams permission")
	}
	for _, x := range []string{"$JS.API.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.>", "choria.streams.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.provisioner"} {
		add("Publish Allow "+x, cperm("perm.ElectionUser"), "the election user permission")
	}
	for _, x := range []string{"*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation"} {
		add("Publish Allow "+x, allOf(client, anyOf(has("perm.FleetManagement"), has("perm.SignedFleetManagement"))), "a fleet management permission")
	}
	// servers
	for _, x := range []string{"choria.machine.transition", "choria.machine.watcher.>"} {
		add("Publish Allow "+x, server, "a verified server token with collectives")
	}
	add("Publish Allow choria.lifecycle.>", anyOf(server, func(Set) bool { return false }), "a verified server token with collectives")
	add("Publish Allow <field:tokens.ServerClaims.AdditionalPublishSubjects>", server, "a verified server token with collectives")
	add("Publish Allow %s.reply.>", server, "a verified server token with collectives", coll)
	add("Publish Allow %s.broadcast.agent.registration", server, "a verified server token with collectives", coll)
	add("Publish Allow choria.federation.%s.collective", server, "a verified server token with collectives", coll)
	add("Subscribe Allow %s.broadcast.agent.>", server, "a verified server token with collectives", coll)
	add("Subscribe Allow %s.node.%s", server, "a verified server token with collectives", coll, ident)
	add("Subscribe Allow %s.reply.%x.>", server, "a verified server token with collectives", coll, callerHash)
	add("Subscribe Allow %s.broadcast.service.>", and(server, "sperm.ServiceHost"), "the service host permission", coll)
	add("Publish Allow %s.submission.in.>", and(server, "sperm.Submission"), "the submission permission", coll)
	add("Publish Allow %s.governor.*", and(server, "sperm.Governor", "sperm.Streams"), "the governor and streams permissions", coll)
	for _, x := range []string{"STREAM.INFO.*", "STREAM.MSG.GET.*", "STREAM.MSG.DELETE.*", "DIRECT.GET.*", "DIRECT.GET.*.>", "CONSUMER.CREATE.*", "CONSUMER.CREATE.*.>", "CONSUMER.DURABLE.CREATE.*.*", "CONSUMER.INFO.*.*", "CONSUMER.MSG.NEXT.*.*"} {
		add("Publish Allow %s."+x, and(server, "sperm.Streams"), "the streams permission", []string{"?const"})
	}
	// everything
	all := anyOf(cperm("perm.OrgAdmin"), has("issuer.tls.access", "tls.verified", "no.token"), has("no.token", "servers.allowed"), has("pipe", "!tls.present"))
	add("Publish Allow >", all, "an org admin token, or an allow-all list that is cut down by denies for a verified TLS connection")
	add("Subscribe Allow >", all, "an org admin token, or an allow-all list that is cut down by denies for a verified TLS connection")

	register(&Check{
		ID: "B04", Level: "proof",
		Rule:        "every subject string that can flow into an allow list is one of the listed subjects for that direction, is put there only on paths that established the token permission it stands for, and is built from the claims of that token; allow-all lists not backed by org admin carry the fleet denies; every registration of a token connection set both lists; and on every path through the making of the lists for a client or server token, with any combination of claims, the lists hold exactly the subjects those claims stand for (servers with up to two collectives)",
		Explanation: "backwards value flow from every store to a permission list to the strings put into it, must-facts at each of those points, and provenance of each format argument",
		Assume:      []string{"NATS evaluates deny lists before allow lists"},
		Run: func(p *Prog, r *Report) {
			b := newBrokerAuth(p, r)
			if b == nil {
				return
			}
			grantedExactly(p, r)
			gs := b.grants()
			grantAt := map[ssa.Instruction]grant{}
			n := 0
			for _, g := range gs {
				what := fmt.Sprintf("%s %s %s", g.dir, g.kind, g.subject)
				if g.kind == "Deny" {
					continue
				}
				n++
				grantAt[g.at] = g
				ru, ok := table[what]
				if g.subject == "choria.lifecycle.>" && b.ctx.Some(g.at, "tok.prov") {
					continue // decided by B03
				}
				if !ok {
					r.at("subject", g.at, what, false, "this subject is granted but no token permission stands for it")
					continue
				}
				r.require("grant", b.ctx, g.at, what, ru.pred, ru.want)
				if vs, ok := fmtAt(g.at); ok {
					fl := b.flow()
					fl.Stop = func(v ssa.Value) string {
						if f := loadedField(v); strings.HasPrefix(f, "tokens.") {
							return "field:" + f
						}
						return ""
					}
					okArgs := len(vs) == len(ru.args)
					det := ""
					for i, v := range vs {
						if i >= len(ru.args) {
							break
						}
						if !fl.Only(v, ru.args[i]...) {
							okArgs = false
						}
						det += fmt.Sprintf(" arg %d from %v", i, sortedKeys(fl.Labels(v)))
						for l := range fl.Labels(v) {
							if strings.HasPrefix(l, "call:crypto/") {
								// what was hashed
								for _, o := range fl.From(v) {
									hc, _ := callOf(o.V)
									if hc != nil && !fl.Only(hc.Call.Args[0], "field:tokens.ClientIDClaims.CallerID", "field:tokens.ServerClaims.ChoriaIdentity", "?zero") {
										okArgs = false
										det += fmt.Sprintf(" hash of %v", sortedKeys(fl.Labels(hc.Call.Args[0])))
									}
								}
							}
						}
					}
					r.at("built-from", g.at, what, okArgs, det)
				}
			}
			r.need("grant", "grants", n, 40)

			// the lists of one SubjectPermission
			type lists struct {
				allow, deny map[string]bool
				dirs        []string
				at          ssa.Instruction
				org         bool
				issuer      bool
			}
			byBase := map[ssa.Value]*lists{}
			for _, k := range []string{"Allow", "Deny"} {
				for _, st := range p.fieldSt["natsd.SubjectPermission."+k] {
					if !b.reach[st.Parent()] {
						continue
					}
					base := st.Addr.(*ssa.FieldAddr).X
					if _, isAlloc := base.(*ssa.Alloc); !isAlloc {
						continue
					}
					l := byBase[base]
					if l == nil {
						l = &lists{allow: map[string]bool{}, deny: map[string]bool{}, at: st, dirs: b.dirs(base)}
						byBase[base] = l
					}
					b.subjects(st.Val, st, func(s string, at ssa.Instruction) {
						if k == "Allow" {
							l.allow[s] = true
							if b.ctx.Require(at, has("issuer.tls.access")) == nil {
								l.issuer = true
							}
						} else {
							l.deny[s] = true
						}
					})
				}
			}
			nl := 0
			for base, l := range byBase {
				var must []string
				switch {
				case len(l.dirs) == 1 && l.allow[">"] && l.issuer:
					must = []string{"*.broadcast.>", "*.node.>", "*.reply.>", "choria.federation.>", "choria.lifecycle.>", "choria.machine.>"}
				case len(l.dirs) == 1 && l.allow[">"]:
					must = []string{"*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation"}
				case len(l.allow) == 0 && len(l.deny) > 0 && !l.deny[">"]:
					must = []string{"*.reply.>", "choria.federation.>", "choria.lifecycle.>"}
				default:
					continue
				}
				nl++
				missing := []string{}
				for _, m := range must {
					if !l.deny[m] && !l.deny[">"] {
						missing = append(missing, m)
					}
				}
				r.ob("deny", fmt.Sprintf("%s: %v list allowing %v", fname(base.Parent()), l.dirs, sortedKeys(l.allow)), len(missing) == 0, p.ipos(l.at), fmt.Sprintf("denies %v, missing %v", sortedKeys(l.deny), missing))
			}
			r.need("deny", "open lists cut down by denies", nl, 3)

			// registrations: lists set
			denyAt := map[ssa.Instruction]string{}
			for _, g := range gs {
				if g.kind == "Deny" && g.subject == ">" {
					denyAt[g.at] = g.dir
				}
			}
			base := b.a.Exec
			b.a.Exec = func(i ssa.Instruction) []string {
				out := base(i)
				if g, ok := grantAt[i]; ok {
					out = append(out, "granted."+g.dir)
				}
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "natsd.SubjectPermission.Deny" {
						denyAll := false
						b.subjects(st.Val, st, func(s string, _ ssa.Instruction) { denyAll = denyAll || s == ">" })
						if denyAll {
							for _, d := range b.dirs(fa.X) {
								out = append(out, "denied."+d)
							}
						}
					}
				}
				return out
			}
			b.a.st = nil
			set := func(d string) func(Set) bool {
				return allOf(has("permset."+strings.ToLower(d[:3])), anyOf(has("granted."+d), has("denied."+d)))
			}
			for _, i := range b.regs {
				r.requireFull("lists", b.ctx, i, "RegisterUser with a token", func(s Set) bool {
					if s.has("acct.prov") || bSystem(s) {
						return true
					}
					if s.has("tok.client") || s.has("tok.server") {
						return set("Subscribe")(s) && set("Publish")(s)
					}
					return s.has("pipe") || s.has("!issuers") || (s.has("permset.sub") && s.has("permset.pub"))
				}, "both permission lists to be set with something granted or everything denied")
			}
		},
	})
}
