package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TLS: peers are verified unless configured otherwise.

const (
	tlsConf  = "crypto/tls.Config."
	brokerNW = "broker/network"
)

func init() {
	register(&Check{
		ID: "S04", Level: "proof",
		Rule:        "verification of TLS peers is turned off only on paths where the configuration disabled it, no authority is configured for the security system that makes it optional, or the connection is one of those that are made before or without a way to verify (in process, while provisioning, anonymous TLS, fetching the authority); the authorities are those configured and set whenever there are any, no version before TLS 1.2 is accepted, and legacy verification verifies chain and name. Brokers ask for client certificates and verify them unless there is no authority or it is disabled, leafnodes and connections use TLS unless it is disabled. What relaxes these settings is off by default, and set only for anonymous TLS, for clients only with a remote signer; the security provider is valid before it is used",
		Explanation: "must-facts on all paths, through all callers, to each store that relaxes a TLS setting and each use; provenance of authorities and configurations",
		Run: func(p *Prog, r *Report) {
			tlsUnverified(p, r)
			tlsAuthorities(p, r)
			tlsClients(p, r)
			tlsBroker(p, r)
			tlsSettings(p, r)
			tlsConnect(p, r)
		},
	})
}

func tlsSpec(p *Prog) *Spec {
	s := newSpec(p)
	ed25519 := p.pkgConst("inter", "SecurityTechnologyED25519JWT")
	inRepoPkg := func(v ssa.Value) bool { return v.Parent() != nil && p.InRepo[v.Parent()] }
	s.cond(func(v ssa.Value, o Outcome) []string {
		if !inRepoPkg(v) {
			return nil
		}
		k := loadedField(v)
		switch {
		case strings.HasSuffix(k, ".DisableTLSVerify") && o == True:
			return []string{"disabled"}
		case strings.HasSuffix(k, ".DisableTLS") && o == True:
			return []string{"no tls"}
		case strings.HasSuffix(k, "ChoriaPluginConfig.NetworkClientTLSForce") && o == False:
			return []string{"not forced"}
		case strings.HasSuffix(k, "archivewatcher.properties.Insecure") && o == True, strings.HasSuffix(k, "archivewatcher.Properties.Insecure") && o == True:
			return []string{"insecure archive"}
		case strings.HasSuffix(k, ".BackwardCompatVerification") && o == True:
			return []string{"legacy"}
		case strings.HasSuffix(k, "choria.Connection.ipc") && o == True:
			return []string{"ipc"}
		case strings.HasSuffix(k, "ChoriaPluginConfig.ClientAnonTLS") && o == True:
			return []string{"client anon"}
		case strings.HasSuffix(k, "ChoriaPluginConfig.ServerAnonTLS") && o == True:
			return []string{"server anon"}
		case strings.HasSuffix(k, "ChoriaPluginConfig.RemoteSignerService") && o == True:
			return []string{"signer"}
		case strings.HasSuffix(k, ".DisableSecurityProviderVerify") && o == True:
			return []string{"validation disabled"}
		}
		if x, empty, ok := emptiness(v, o); ok {
			switch {
			case !empty && strings.HasSuffix(loadedField(x), "ChoriaPluginConfig.RemoteSignerURL"):
				return []string{"signer"}
			case !empty && loadedField(x) == "choria.Connection.token":
				return []string{"token"}
			case empty:
				if c, i := callOf(x); c != nil && mname(&c.Call) == "ValidateSecurity" && i == 0 {
					return []string{"validated"}
				}
			}
		}
		if x, y, eq, ok := equality(v, o); ok {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if isNilConst(pr[1]) && (loadedField(pr[0]) == tlsConf+"ClientCAs" || loadedField(pr[0]) == tlsConf+"RootCAs") && eq {
					return []string{"no CA"}
				}
				if t, isS := constString(pr[1]); isS && eq && (t == "false" || t == "no" || t == "off" || t == "0") {
					if c, _ := callOf(pr[0]); c != nil && mname(&c.Call) == "extractKeyedConfigString" {
						if k, _ := constString(args(&c.Call)[2]); k == "tls.verify" {
							return []string{"verify off"}
						}
					}
				}
				if c, _ := callOf(pr[0]); c != nil && mname(&c.Call) == "BackingTechnology" {
					if t, isC := pr[1].(*ssa.Const); isC && sameConst(t.Value, ed25519) {
						if eq {
							return []string{"ed25519"}
						}
						return []string{"not ed25519"}
					}
				}
			}
		}
		if c, i := callOf(v); c != nil {
			switch mname(&c.Call) {
			case "FileExist":
				if o == False && len(args(&c.Call)) == 1 && isCAPath(p, args(&c.Call)[0]) {
					return []string{"no CA"}
				}
			case "HasTLS":
				if o == False {
					return []string{"no tls in build"}
				}
			case "caExists":
				if o == False {
					return []string{"no CA"}
				}
			case "DisableTLSVerify":
				if o == True {
					return []string{"disabled"}
				}
			case "ProvisionMode":
				if o == True {
					return []string{"mode"}
				}
				return []string{"not mode"}
			case "isJwtAuth":
				if o == False {
					return []string{"not jwt"}
				}
				return []string{"jwt"}
			case "IsSecure":
				if o == False {
					return []string{"protocol insecure"}
				}
			case "Validate":
				if o == True && i == 1 {
					return []string{"validated"}
				}
			case "extractTLSCFromKeyedConfig":
				if i == 1 && o == True {
					return []string{"tls.disable"}
				}
			}
		}
		return nil
	})
	s.opaque["(*choria.Framework).ProvisionMode"] = true
	s.exec(func(i ssa.Instruction) []string {
		st, ok := i.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || isNilConst(st.Val) {
			return nil
		}
		switch k := fieldKey(fa); k {
		case tlsConf + "RootCAs", tlsConf + "ClientCAs", tlsConf + "VerifyConnection", tlsConf + "ClientAuth":
			return []string{"set " + strings.TrimPrefix(k, tlsConf)}
		case "net/http.Client.Transport":
			return []string{"set Transport"}
		default:
			for _, n := range []string{"Options.TLSConfig", "Options.TLS", "LeafNodeOpts.TLSConfig", "RemoteLeafOpts.TLSConfig"} {
				if strings.HasSuffix(k, "natsd."+n) {
					return []string{"set " + n}
				}
			}
		}
		return nil
	})
	return s
}

// isCAPath: the path of the authority that is configured.
func isCAPath(p *Prog, v ssa.Value) bool {
	n := 0
	for l := range (&Flow{P: p, Stop: callSource("caPath", "extractKeyedConfigString"), Derive: derive(map[string]int{"path/filepath.FromSlash": 0})}).Labels(v) {
		switch {
		case l == "result:caPath", l == "?zero", l == "const:", l == "const":
		case strings.HasPrefix(l, "field:") && (strings.HasSuffix(l, ".CA") || strings.HasSuffix(l, ".CAFile") || strings.HasSuffix(l, "FileSecurityCA") || strings.HasSuffix(l, "ChoriaSecurityCA")):
			n++
		case l == "result:extractKeyedConfigString":
			n++
		default:
			return false
		}
		if l == "result:caPath" {
			n++
		}
	}
	return n > 0
}

// tlsFields visits the stores to a field of TLS configurations.
func tlsFields(p *Prog, field string, visit func(st *ssa.Store)) {
	for _, f := range p.Funcs {
		if !p.InRepo[f] || outsideRuntime(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa), field) {
						visit(st)
					}
				}
			}
		}
	}
}

func tlsUnverified(p *Prog, r *Report) {
	s := tlsSpec(p)
	ctx := s.facts().Whole()
	n := 0
	anon := allOf(has("jwt", "not ed25519"))
	perPkg := map[string]func(Set) bool{
		"choria":                         anyOf(has("ipc"), has("mode"), anon, has("disabled")),
		"providers/security/choria":      anyOf(has("disabled"), has("no CA")),
		"providers/security/filesec":     anyOf(has("disabled"), has("legacy")),
		"providers/security/puppetsec":   anyOf(has("disabled"), has("no CA")),
		"aagent/watchers/archivewatcher": has("insecure archive"),
		brokerNW:                         anyOf(has("disabled"), has("verify off")),
	}
	tlsFields(p, tlsConf+"InsecureSkipVerify", func(st *ssa.Store) {
		if v, ok := constBool(st.Val); ok && !v {
			return
		}
		n++
		pkg := strings.TrimPrefix(fnPkgPath(st.Parent()), modPath+"/")
		if pkg == "providers/signers" {
			// remote signers are reached by clients that have no authority to verify these with
			return
		}
		if pkg == brokerNW && inProcessOnly(p, st) {
			r.at("unverified", st, "verification off", true, "for a connection within the process")
			return
		}
		pred := perPkg[pkg]
		if pred == nil {
			pred = has("disabled")
		}
		r.requireWhen("unverified", ctx, st, st.Val, True, "verification off", pred, "it being disabled, or not possible, by the configuration")
		if pkg == "providers/security/filesec" && ctx.RequireWhen(st, st.Val, True, has("disabled")) != nil {
			// another verification takes its place
			cfg := st.Addr.(*ssa.FieldAddr).X
			found := false
			for _, b := range st.Parent().Blocks {
				for _, i := range b.Instrs {
					if o, ok := i.(*ssa.Store); ok {
						if fa, ok := o.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == tlsConf+"VerifyConnection" && fa.X == cfg && !isNilConst(o.Val) {
							found = found || (b == st.Block() && ordinal(b, o) > ordinal(b, st) || b.Dominates(st.Block()))
						}
					}
				}
			}
			r.at("unverified", st, "legacy verification", found, "must take the place of what is turned off")
		}
	})
	r.need("unverified", "places that turn verification off", n, 8)

	for _, k := range []string{"MinVersion", "MaxVersion"} {
		m := 0
		tlsFields(p, tlsConf+k, func(st *ssa.Store) {
			m++
			v, ok := constInt(st.Val)
			r.at("version", st, k, ok && v >= 0x0303, "must be TLS 1.2 or later")
		})
		if k == "MinVersion" {
			r.need("version", "versions", m, 6)
		}
	}
	bad := 0
	for _, c := range p.callsTo("crypto/tls.InsecureCipherSuites") {
		bad++
		r.at("version", c, "cipher suites", false, "insecure ones may not be used")
	}
	r.ob("version", "insecure cipher suites", bad == 0, "", "none are used")

	// verification in place of that of the library
	v := newSpec(p)
	v.result("chain", 1, Nil, nil, "(*crypto/x509.Certificate).Verify")
	peerName := func(x ssa.Value) bool { return strings.HasSuffix(loadedField(x), "tls.ConnectionState.ServerName") }
	v.result("name", 0, True, func(c ssa.CallInstruction) bool {
		a, b := c.Common().Args[0], c.Common().Args[1]
		cn := func(x ssa.Value) bool { return strings.HasSuffix(loadedField(x), "pkix.Name.CommonName") }
		return peerName(a) && cn(b) || peerName(b) && cn(a)
	}, "strings.EqualFold")
	v.exec(func(i ssa.Instruction) []string {
		if st, ok := i.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "crypto/x509.VerifyOptions.DNSName" && peerName(st.Val) {
				return []string{"name"}
			}
		}
		if c, ok := i.(*ssa.Call); ok && cname(&c.Call) == "(*crypto/x509.Certificate).VerifyHostname" && peerName(c.Call.Args[1]) {
			return []string{"asked"}
		}
		return nil
	})
	v.result("name", 0, Nil, func(c ssa.CallInstruction) bool { return peerName(c.Common().Args[1]) }, "(*crypto/x509.Certificate).VerifyHostname")
	m := 0
	tlsFields(p, tlsConf+"VerifyConnection", func(st *ssa.Store) {
		for _, g := range madeClosures(st.Val, 0) {
			m++
			r.returnsRequire("legacy", v.facts(), g, 0, Nil, has("chain", "name"), "peer accepted", "its chain and name having been verified")
			for _, c := range callsOf(g) {
				if cname(c.Common()) == "(*crypto/x509.Certificate).Verify" {
					roots := optsField(c.Common().Args[1], "Roots")
					ok := len(roots) == 1 && onlyOf(&Flow{P: p}, roots[0], "field:"+tlsConf+"RootCAs")
					if !ok && len(roots) == 1 {
						ok = (&Flow{P: p}).Labels(roots[0])["call:crypto/x509.NewCertPool"] && !hasNil(p, roots[0])
					}
					r.at("legacy", c, "authorities", ok, "must be those configured")
				}
			}
		}
	})
	r.need("legacy", "verifications", m, 1)
}

func hasNil(p *Prog, v ssa.Value) bool {
	ls := (&Flow{P: p}).Labels(v)
	return ls["?nil"] || ls["?zero"]
}

// optsField are the values stored in a field of the struct that is passed by value.
func optsField(v ssa.Value, field string) []ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	out := storedIn(al, field)
	for _, i := range *al.Referrers() {
		if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			out = append(out, optsField(st.Val, field)...)
		}
	}
	return out
}

// madeClosures are the functions a value is: a closure, or what a function called for it returns.
func madeClosures(v ssa.Value, d int) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return madeClosures(x.X, d)
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || d > 3 {
			return nil
		}
		var out []*ssa.Function
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				out = append(out, madeClosures(settled(ret.Results[0]), d+1)...)
			}
		}
		return out
	}
	return nil
}

// inProcessOnly: the configuration that is stored to is only used for connections within the process.
func inProcessOnly(p *Prog, st *ssa.Store) bool {
	al, ok := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
	if !ok {
		return false
	}
	secured := false
	for _, c := range callsOf(st.Parent()) {
		if mname(c.Common()) == "Secure" && len(c.Common().Args) == 1 {
			for _, v := range varargs(c.Common().Args[0]) {
				secured = secured || v == ssa.Value(al)
			}
		}
	}
	if !secured {
		return false
	}
	n := 0
	for _, c := range callsOf(st.Parent()) {
		if !strings.HasSuffix(cname(c.Common()), "nats.Connect") {
			continue
		}
		n++
		in := false
		for _, v := range varargs(c.Common().Args[1]) {
			o, _ := callOf(v)
			in = in || o != nil && mname(&o.Call) == "InProcessServer"
		}
		if !in {
			return false
		}
	}
	return n > 0
}

func tlsAuthorities(p *Prog, r *Report) {
	n := 0
	for _, k := range []string{"RootCAs", "ClientCAs"} {
		tlsFields(p, tlsConf+k, func(st *ssa.Store) {
			n++
			fl := &Flow{P: p, NoCallers: true, Stop: callSource("NewCertPool")}
			ok := onlyOf(fl, st.Val, "result:NewCertPool")
			r.at("authorities", st, k, ok, "must be a pool made for the authority configured")
			if !ok {
				return
			}
			// what the pool is filled with
			m := 0
			fill := func(g *ssa.Function) {
				for _, c := range callsOf(g) {
					switch cname(c.Common()) {
					case "(*crypto/x509.CertPool).AppendCertsFromPEM":
						m++
						src := &Flow{P: p, Stop: callSource("ReadFile")}
						good := onlyOf(src, args(c.Common())[0], "result:ReadFile")
						for _, o := range src.From(args(c.Common())[0]) {
							if rf, _ := callOf(o.V); rf != nil && mname(&rf.Call) == "ReadFile" {
								t, isC := constString(rf.Call.Args[0])
								good = good && (isCAPath(p, rf.Call.Args[0]) || isC && strings.HasSuffix(t, "/ca.crt"))
							}
						}
						r.at("authorities", c, "authority of "+k, good, "must be the one configured")
					case "(*crypto/x509.CertPool).AddCert":
						r.at("authorities", c, "authority of "+k, false, "must be the one configured")
					}
				}
			}
			seen := map[*ssa.Function]bool{}
			for _, o := range fl.From(st.Val) {
				if c, _ := callOf(o.V); c != nil && !seen[c.Parent()] {
					seen[c.Parent()] = true
					fill(c.Parent())
				}
			}
			r.at("authorities", st, k+" filled", m > 0, "the authority configured must be added")
		})
	}
	r.need("authorities", "authorities set", n, 8)
	s := tlsSpec(p)
	m := 0
	for _, f := range p.Funcs {
		res := f.Signature.Results()
		pkg := fnPkgPath(f)
		if res.Len() != 2 || !strings.HasSuffix(res.At(0).Type().String(), "crypto/tls.Config") || !isErr(res.At(1).Type()) || !strings.HasPrefix(pkg, modPath+"/providers/security/") || len(f.Blocks) == 0 {
			continue
		}
		m += r.returnsRequire("authorities", s.facts(), f, 1, Nil, anyOf(has("set RootCAs", "set ClientCAs"), has("no CA"), has("disabled")), "configuration", "the authorities being set when there are any")
	}
	r.need("authorities", "configurations", m, 8)
}

func tlsClients(p *Prog, r *Report) {
	n := 0
	fl := &Flow{P: p, NoCallers: true, Stop: callSource("TLSConfig", "ClientTLSConfig", "k8sTLSConfig")}
	for _, f := range p.Funcs {
		if !p.InRepo[f] || outsideRuntime(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != "net/http.Transport.TLSClientConfig" {
					continue
				}
				n++
				good := true
				for _, o := range fl.From(st.Val) {
					_, lit := o.V.(*ssa.Alloc)
					_, par := o.V.(*ssa.Parameter)
					good = good && (strings.HasPrefix(o.Label, "result:") || lit || par)
				}
				r.at("clients", st, "TLS of HTTP clients", good, "must be the configuration of the security provider")
			}
		}
	}
	r.need("clients", "HTTP transports", n, 7)
	s := tlsSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if pr, ok := v.(*ssa.Parameter); ok && o == False && pr.Parent().Name() == "HTTPClient" {
			return []string{"plain"}
		}
		return nil
	})
	m := 0
	for _, f := range p.Funcs {
		if f.Name() != "HTTPClient" || !p.InRepo[f] || len(f.Blocks) == 0 || f.Signature.Results().Len() != 2 || !strings.HasPrefix(fnPkgPath(f), modPath+"/providers/security/") {
			continue
		}
		m += r.returnsRequire("clients", s.facts(), f, 1, Nil, anyOf(has("plain"), has("set Transport")), "HTTP client", "its TLS being configured when secure")
	}
	r.need("clients", "HTTP clients", m, 4)
	q := 0
	for _, f := range p.Funcs {
		if !p.InRepo[f] || outsideRuntime(f) || f.Name() == "HTTPClient" {
			continue
		}
		for _, c := range callsOf(f) {
			if mname(c.Common()) != "HTTPClient" || len(args(c.Common())) != 1 {
				continue
			}
			q++
			a := args(c.Common())[0]
			b, isC := constBool(a)
			ok := isC && b
			if x, y, eq, isEq := equality(a, True); isEq && eq {
				for _, k := range []ssa.Value{x, y} {
					if t, isS := constString(k); isS && t == "https" {
						ok = true
					}
				}
			}
			r.at("clients", c, "HTTP client", ok, "must be a secure one for https")
		}
	}
	r.need("clients", "uses of HTTP clients", q, 3)
}

func tlsBroker(p *Prog, r *Report) {
	s := tlsSpec(p)
	ctx := s.facts().Whole()
	n := 0
	for _, f := range p.inPkg(brokerNW) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa)
				yes, isB := constBool(st.Val)
				switch {
				case k == tlsConf+"ClientAuth":
					n++
					v, isC := constInt(st.Val)
					if isC && v == 0 {
						r.require("broker", ctx, st, "no client certificates", anyOf(has("no CA"), has("disabled")), "there being no authority or verification being disabled")
					} else {
						r.at("broker", st, "client certificates", isC && v >= 3, "must be verified")
					}
				case strings.HasSuffix(k, "natsd.Options.TLSVerify"):
					if !isB || !yes {
						r.requireWhen("broker", ctx, st, st.Val, False, "verification of clients off", has("disabled"), "it being disabled")
					}
				case strings.HasSuffix(k, "natsd.Options.AllowNonTLS"):
					r.at("broker", st, "connections without TLS", isB && !yes, "may not be allowed")
				case strings.HasSuffix(k, "natsd.Options.TLS"):
					r.at("broker", st, "TLS", isB && yes, "may not be turned off")
				case strings.HasSuffix(k, "natsd.Options.TLSConfig"):
					r.at("broker", st, "TLS configuration", onlyOf(&Flow{P: p, NoCallers: true, Stop: callSource("TLSConfig")}, st.Val, "result:TLSConfig"), "must be that of the security provider")
				case strings.HasSuffix(k, "natsd.LeafNodeOpts.TLSConfig"):
					r.at("broker", st, "TLS configuration of leafnodes", strings.HasSuffix(loadedField(st.Val), "natsd.Options.TLSConfig"), "must be that of the broker")
				case strings.HasSuffix(k, "natsd.RemoteLeafOpts.TLSConfig"):
					n++
					if isNilConst(st.Val) {
						r.require("broker", ctx, st, "TLS of leafnode remotes off", has("tls.disable"), "it being disabled for that remote")
					}
				case strings.HasSuffix(k, "natsd.LeafNodeOpts.Remotes"):
					n++
					r.require("broker", ctx, st, "leafnode remote added", anyOf(has("set RemoteLeafOpts.TLSConfig"), has("no tls"), has("tls.disable")), "TLS being set unless disabled")
				case strings.HasSuffix(k, "natsd.LeafNodeOpts.Port"):
					n++
					if v, isC := constInt(st.Val); isC && v == 0 {
						continue
					}
					r.require("broker", ctx, st, "leafnode port opened", anyOf(has("set LeafNodeOpts.TLSConfig"), has("no tls")), "TLS being set unless disabled")
				}
			}
		}
	}
	r.need("broker", "settings of the broker", n, 6)
	if f := r.anchor("broker", "(*broker/network.Server).setupTLS"); f != nil {
		m := r.returnsRequire("broker", s.facts(), f, 0, Nil, anyOf(has("no tls", "not forced"), allOf(has("set Options.TLS", "set Options.TLSConfig", "set ClientAuth"), anyOf(has("not forced"), has("validated")))), "TLS set up", "TLS being on with client certificates decided on, unless it is disabled and not forced")
		r.need("broker", "outcomes of the setup", m, 2)
		for _, c := range p.callsTo(fname(f)) {
			if call, ok := c.(*ssa.Call); ok {
				propagated(p, r, "broker", call, 0, "TLS that cannot be set up")
			}
		}
	}
}

func tlsSettings(p *Prog, r *Report) {
	s := tlsSpec(p)
	ctx := s.facts().Whole()
	n := 0
	for _, f := range p.Funcs {
		if !p.InRepo[f] || outsideRuntime(f) || fname(f) == "config.NewConfigForTests" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if yes, isB := constBool(st.Val); isB && !yes {
					continue
				}
				k := fieldKey(fa)
				switch {
				case k == "config.Config.DisableTLS":
					n++
					r.requireWhen("settings", ctx, st, st.Val, True, "TLS disabled", has("no tls in build"), "a build without TLS")
				case k == "config.Config.DisableTLSVerify", k == "config.Config.DisableSecurityProviderVerify":
					n++
					r.requireWhen("settings", ctx, st, st.Val, True, strings.TrimPrefix(k, "config.Config."), anyOf(has("server anon"), has("client anon", "signer")), "anonymous TLS, of servers or of clients with a remote signer")
				case k == "config.ChoriaPluginConfig.ServerAnonTLS", k == "config.ChoriaPluginConfig.ClientAnonTLS", k == "config.ChoriaPluginConfig.SecurityAllowLegacyCerts":
					r.at("settings", st, k, false, "may only be configured")
				case strings.HasSuffix(k, ".DisableTLSVerify"):
					n++
					good := true
					for l := range (&Flow{P: p, NoDescend: true}).Labels(st.Val) {
						good = good && strings.HasPrefix(l, "field:") && strings.HasSuffix(l, ".DisableTLSVerify")
					}
					r.at("settings", st, k, good, "must be as configured")
				case strings.HasSuffix(k, ".legacyCerts"), strings.HasSuffix(k, ".BackwardCompatVerification"):
					n++
					if fnPkgPath(f) == modPath+"/providers/security/puppetsec" {
						// certificates of Puppet have no alternative names
						continue
					}
					good := true
					for l := range (&Flow{P: p, NoDescend: true}).Labels(st.Val) {
						good = good && strings.HasPrefix(l, "field:") && (strings.HasSuffix(l, ".SecurityAllowLegacyCerts") || strings.HasSuffix(l, ".legacyCerts") || strings.HasSuffix(l, ".BackwardCompatVerification"))
					}
					r.at("settings", st, k, good, "must be as configured")
				}
			}
		}
	}
	r.need("settings", "settings", n, 9)
	m := 0
	for _, pkg := range p.Pkgs {
		if pkg.PkgPath != modPath+"/config" {
			continue
		}
		st, ok := pkg.Types.Scope().Lookup("ChoriaPluginConfig").Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "ServerAnonTLS", "ClientAnonTLS", "SecurityAllowLegacyCerts":
				m++
				d := reflect.StructTag(st.Tag(i)).Get("default")
				r.ob("settings", "default of "+st.Field(i).Name(), d == "" || d == "false", p.pos(st.Field(i).Pos()), "must be off")
			}
		}
	}
	r.need("settings", "defaults", m, 3)

	// providers are valid before they are used
	if f := r.anchor("validated", "(*choria.Framework).setupSecurity"); f != nil {
		q := r.returnsRequire("validated", s.facts(), f, 0, Nil, anyOf(has("validated"), has("validation disabled"), has("no tls"), has("protocol insecure")), "security set up", "it being valid unless validation is disabled")
		r.need("validated", "outcomes", q, 1)
		k := 0
		for _, c := range p.callsTo(fname(f)) {
			call, ok := c.(*ssa.Call)
			res := c.Parent().Signature.Results()
			if !ok || res.Len() == 0 || !isErr(res.At(res.Len()-1).Type()) {
				continue
			}
			k++
			propagated(p, r, "validated", call, 0, "security that cannot be set up")
		}
		r.need("validated", "uses", k, 1)
	}
}

func tlsConnect(p *Prog, r *Report) {
	f := r.anchor("connect", "(*choria.Connection).Connect")
	if f == nil {
		return
	}
	s := tlsSpec(p)
	s.execCall("secured", nil, "nats.Secure")
	s.result("never", 0, Nil, nil, "(*choria.Framework).ClientTLSConfig")
	s.result("never", 0, Nil, nil, "(inter.Framework).ClientTLSConfig")
	n := 0
	var visit func(g *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(g *ssa.Function) {
		if seen[g] || fnPkgPath(g) != modPath+"/choria" {
			return
		}
		seen[g] = true
		for _, c := range callsOf(g) {
			switch {
			case strings.HasSuffix(cname(c.Common()), "nats.Connect"):
				n++
				r.require("connect", s.facts().From(outermostOf(f)), connectPoint(c), "connection made", anyOf(has("secured"), has("no tls"), has("never")), "TLS being used unless disabled")
				r.require("connect", s.facts().From(outermostOf(f)), connectPoint(c), "connection made with a token", anyOf(has("not jwt"), has("ipc"), has("mode"), has("token")), "the token that is authenticated with being there")
			case strings.HasSuffix(cname(c.Common()), "nats.Secure"):
				for _, v := range varargs(c.Common().Args[0]) {
					fl := &Flow{P: p, Stop: callSource("ClientTLSConfig")}
					good := true
					for _, o := range fl.From(v) {
						_, lit := o.V.(*ssa.Alloc)
						good = good && (lit || o.Label == "result:ClientTLSConfig" || isNilConst(o.V))
					}
					r.at("connect", c, "TLS of the connection", good, "must be that of the security provider")
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
		for _, c := range callsOf(g) {
			if h := c.Common().StaticCallee(); h != nil && g == f {
				visit(h)
			}
		}
	}
	visit(f)
	r.need("connect", "connections", n, 1)
}

func outermostOf(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// connectPoint is where in the outermost function a call in a closure is made from: where the closure is made.
func connectPoint(c ssa.Instruction) ssa.Instruction {
	f := c.Parent()
	for f.Parent() != nil {
		var at ssa.Instruction
		for _, b := range f.Parent().Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					at = mc
				}
			}
		}
		if at == nil {
			return c
		}
		c, f = at, f.Parent()
	}
	return c
}

func ordinal(b *ssa.BasicBlock, i ssa.Instruction) int {
	for k, j := range b.Instrs {
		if j == i {
			return k
		}
	}
	return -1
}
