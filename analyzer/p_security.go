package main

import (
	"go/constant"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// paramStop labels the parameters of one function "P<i>" (receiver excluded) and constant elements of a
// slice parameter "P<i>[k]".
func paramStop(f *ssa.Function) func(v ssa.Value) string { return paramStopIn(nil, f) }

func paramStopIn(p *Prog, f *ssa.Function) func(v ssa.Value) string {
	off := 0
	if f.Signature.Recv() != nil {
		off = 1
	}
	idx := func(v ssa.Value) string {
		for i, q := range f.Params {
			if v == ssa.Value(q) && i >= off {
				return "P" + strconv.Itoa(i-off)
			}
		}
		return ""
	}
	return func(v ssa.Value) string {
		if l := idx(v); l != "" {
			return l
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				l := idx(ia.X)
				if pa, is := ia.X.(*ssa.Parameter); is && l == "" && p != nil && pa.Parent() != f {
					ls := (&Flow{P: p, Stop: idx}).Labels(pa)
					for x := range ls {
						if len(ls) == 1 && strings.HasPrefix(x, "P") {
							l = x
						}
					}
				}
				if l != "" {
					if k, ok := constInt(ia.Index); ok {
						return l + "[" + strconv.FormatInt(k, 10) + "]"
					}
				}
			}
		}
		return ""
	}
}

// sameLevel: parameters of callers other than f are not followed further up than f.
func stops(fs ...func(v ssa.Value) string) func(v ssa.Value) string {
	return func(v ssa.Value) string {
		for _, f := range fs {
			if l := f(v); l != "" {
				return l
			}
		}
		return ""
	}
}

// litFields gives the values stored in a named field of the local struct(s) v is loaded from.
func litFields(p *Prog, v ssa.Value, field string) (vals []ssa.Value, ok bool) {
	fl := &Flow{P: p}
	fl.Stop = func(v ssa.Value) string {
		if u, is := v.(*ssa.UnOp); is && u.Op == token.MUL {
			if _, is := u.X.(*ssa.Alloc); is {
				if structHas(deref(u.X.Type()), field) {
					return "lit"
				}
			}
		}
		if al, is := v.(*ssa.Alloc); is && structHas(deref(al.Type()), field) {
			return "lit"
		}
		return ""
	}
	ok = true
	for _, o := range fl.From(v) {
		if o.Label != "lit" {
			ok = false
			continue
		}
		al, _ := o.V.(*ssa.Alloc)
		if u, is := o.V.(*ssa.UnOp); is {
			al = u.X.(*ssa.Alloc)
		}
		for _, r := range *al.Referrers() {
			if fa, is := r.(*ssa.FieldAddr); is && structField(deref(al.Type()), fa.Field) == field {
				for _, rr := range *fa.Referrers() {
					if st, is := rr.(*ssa.Store); is && st.Addr == fa {
						vals = append(vals, st.Val)
					}
				}
			}
			if st, is := r.(*ssa.Store); is && st.Addr == al {
				if vs, o := litFields(p, st.Val, field); o {
					vals = append(vals, vs...)
				}
			}
		}
	}
	return vals, ok
}

const certPkg = "crypto/x509.Certificate."

// certDerive follows certificates and keys back to the bytes they are decoded from.
func certDerive(c *ssa.Call) []ssa.Value {
	switch cname(&c.Call) {
	case "crypto/x509.ParseCertificate", "crypto/x509.ParseCertificates", "encoding/pem.Decode", "os.ReadFile":
		if cname(&c.Call) == "os.ReadFile" {
			return nil
		}
		return c.Call.Args[:1]
	case "builtin.append":
		return c.Call.Args
	case "strings.TrimPrefix", "strings.TrimSpace", "bytes.TrimSpace":
		return c.Call.Args[:1]
	}
	if mname(&c.Call) == "ChecksumBytes" {
		return args(&c.Call)
	}
	return nil
}

var certVia = map[string]bool{
	"encoding/pem.Block.Bytes":          true,
	"crypto/x509.Certificate.PublicKey": true,
	"crypto/tls.Certificate.Leaf":       true,
}

// x509Providers are the security provider methods of a name that belong to providers using certificates.
func x509Providers(p *Prog, r *Report, method string) []*ssa.Function {
	var out []*ssa.Function
	want := map[string]bool{}
	for _, f := range p.implsOf("inter.SecurityProvider", "BackingTechnology") {
		if backing(p, f) == 1 {
			want[typeName(f.Params[0].Type())] = true
		}
	}
	for _, f := range p.Funcs {
		if f.Name() == method && f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() != nil && want[typeName(f.Params[0].Type())] {
			out = append(out, f)
		}
	}
	return out
}

// backing is the constant technology a provider reports.
func backing(p *Prog, f *ssa.Function) int64 {
	for _, o := range (&Flow{P: p}).From(f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return).Results[0]) {
		if k, ok := constInt(o.V); ok {
			return k
		}
	}
	return 0
}

func fnames(fs []*ssa.Function) []string {
	var out []string
	for _, f := range fs {
		out = append(out, fname(f))
	}
	return out
}

// passThrough: the call hands on the caller's own parameters, in order.
func passThrough(f *ssa.Function, c ssa.CallInstruction, n int) bool {
	av := args(c.Common())
	ps := paramStop(f)
	if c.Parent() != f || len(av) < n {
		return false
	}
	for i := 0; i < n; i++ {
		if ps(av[i]) != "P"+strconv.Itoa(i) {
			return false
		}
	}
	return true
}

func isConstN(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	k, _ := constant.Int64Val(c.Value)
	return k == n
}

func init() {
	register(&Check{
		ID: "S01", Level: "proof",
		Rule:        "in every certificate based security provider: accepting a certificate requires the success branch of chain verification of that very certificate against a pool the configured CA was really added to, and of a comparison with the expected name; allowing a caller requires that acceptance with the caller's name and the allow list, or for privileged certificates the privileged list matched by a name in that certificate; accepting a signature requires RSA verification of the sha256 of the data by the key in the presented certificate",
		Explanation: "must-facts on every return of the providers' verification methods, with provenance of each argument back to the method's parameters; delegating providers must hand on their own arguments",
		Assume:      []string{"crypto/x509, encoding/pem and crypto/rsa do what they document", "an empty certificate means the provider's own, as documented"},
		Run: func(p *Prog, r *Report) {
			vc := x509Providers(p, r, "VerifyCertificate")
			sa := x509Providers(p, r, "ShouldAllowCaller")
			vs := x509Providers(p, r, "VerifySignatureBytes")
			if !r.need("certificate", "certificate verifiers", len(vc), 1) || !r.need("caller", "caller checks", len(sa), 1) || !r.need("signature", "signature verifiers", len(vs), 1) {
				return
			}
			for _, f := range vc {
				s := newSpec(p)
				fl := &Flow{P: p, Derive: certDerive, Via: certVia, Stop: paramStopIn(p, f)}
				deleg(s, f, vc, 2, Nil, 0, "chain", "name")
				s.result("chain", 1, Nil, func(c ssa.CallInstruction) bool {
					if !fl.Only(recvArg(c.Common()), "P0", "?nil") {
						return false
					}
					return chainOptions(p, args(c.Common())[0])
				}, "(*crypto/x509.Certificate).Verify")
				s.cond(func(v ssa.Value, o Outcome) []string {
					if x, empty, ok := emptiness(v, o); ok && empty && fl.Only(x, "P1") {
						return []string{"name"}
					}
					x, y, eq, ok := equality(v, o)
					if !ok || !eq {
						return nil
					}
					for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
						if fl.Only(pr[0], "P1") && certName(fl, pr[1]) {
							return []string{"name"}
						}
					}
					return nil
				})
				s.result("name", 0, True, func(c ssa.CallInstruction) bool {
					av := args(c.Common())
					return certName(fl, av[0]) && fl.Only(av[1], "P1")
				}, "slices.Contains")
				n := r.returnsRequire("certificate", s.facts(), f, 0, Nil, has("chain", "name"), "accepts a certificate", "a verified chain to the configured CA and a matching name")
				r.need("certificate", "accepting returns of "+fname(f), n, 1)
			}
			for _, f := range sa {
				s := newSpec(p)
				fl := &Flow{P: p, Derive: certDerive, Via: certVia, Stop: paramStopIn(p, f)}
				deleg(s, f, sa, 2, Nil, 1, "cert", "cert.named", "allowed", "privileged")
				for _, g := range vc {
					s.opaque[fname(g)] = true
				}
				s.result("cert", 0, Nil, func(c ssa.CallInstruction) bool { return fl.Only(args(c.Common())[0], "P1[0]") }, fnames(vc)...)
				s.result("cert.named", 0, Nil, func(c ssa.CallInstruction) bool {
					return fl.Only(args(c.Common())[0], "P1[0]") && fl.Only(args(c.Common())[1], "P0")
				}, fnames(vc)...)
				for fact, list := range map[string]string{"allowed": "AllowList", "privileged": "PrivilegedUsers"} {
					s.result(fact, 0, True, func(c ssa.CallInstruction) bool {
						av := args(c.Common())
						if len(av) != 2 {
							return false
						}
						if !onlyFieldNamed(fl, av[1], list) {
							return false
						}
						if fact == "allowed" {
							return fl.Only(av[0], "P0")
						}
						return certName(fl, av[0]) || fl.Only(av[0], "P1[0]")
					}, "providers/security/filesec.MatchAnyRegex")
				}
				n := r.returnsRequire("caller", s.facts(), f, 1, Nil, anyOf(has("cert.named", "allowed"), has("cert", "privileged")), "allows a caller", "a certificate verified for the caller's name and the allow list, or a privileged certificate")
				r.need("caller", "allowing returns of "+fname(f), n, 1)
				n = r.returnsRequire("privileged", s.facts(), f, 0, True, has("privileged"), "reports a privileged caller", "a name in the certificate to be on the privileged list")
				r.need("privileged", "privileged returns of "+fname(f), n, 1)
			}
			// the names matched against the privileged list are names of the presented certificate
			for _, c := range p.callsTo("providers/security/filesec.MatchAnyRegex") {
				fl := &Flow{P: p, Derive: certDerive, Via: certVia}
				if !onlyFieldNamed(fl, c.Common().Args[1], "PrivilegedUsers") {
					continue
				}
				f := c.Parent()
				okk := false
				for _, g := range sa {
					if g == f || reachesFn(p, g, f) {
						sfl := &Flow{P: p, Derive: certDerive, Via: map[string]bool{
							"encoding/pem.Block.Bytes": true, "crypto/x509.Certificate.Subject": true, "crypto/x509.Certificate.DNSNames": true, "crypto/x509/pkix.Name.CommonName": true,
						}, Stop: paramStopIn(p, g)}
						ls := sfl.Labels(c.Common().Args[0])
						delete(ls, "?nil")
						delete(ls, "?zero")
						if len(ls) == 1 && ls["P1[0]"] {
							okk = true
						}
					}
				}
				r.at("privileged", c, "names matched against the privileged list", okk, "must come from the certificate that is then verified")
			}
			matchAny(p, r)
			for _, f := range vs {
				s := newSpec(p)
				fl := &Flow{P: p, Derive: certDerive, Via: certVia, Stop: stops(paramStopIn(p, f), ownCert)}
				deleg(s, f, vs, 3, True, 0, "rsa")
				s.result("rsa", 0, Nil, func(c ssa.CallInstruction) bool {
					av := args(c.Common())
					ls := fl.Labels(av[0])
					delete(ls, "?nil")
					if !ls["P2[0]"] {
						return false
					}
					delete(ls, "P2[0]")
					delete(ls, "own")
					return len(ls) == 0 && isConstN(av[1], 5) && fl.Only(av[2], "P0") && fl.Only(av[3], "P1")
				}, "crypto/rsa.VerifyPKCS1v15")
				n := r.returnsRequire("signature", s.facts(), f, 0, True, has("rsa"), "accepts a signature", "an RSA verification of the data by the key in the presented certificate")
				r.need("signature", "accepting returns of "+fname(f), n, 1)
				// the own certificate is only used when none was presented
				es := newSpec(p)
				es.cond(func(v ssa.Value, o Outcome) []string {
					if x, empty, ok := emptiness(v, o); ok && empty && fl.Only(x, "P2[0]") {
						return []string{"none"}
					}
					return nil
				})
				ctx := es.facts().From(f)
				calls(f, func(c ssa.CallInstruction) {
					if cname(c.Common()) != "crypto/rsa.VerifyPKCS1v15" {
						return
					}
					for _, o := range fl.From(args(c.Common())[0]) {
						if i, ok := o.V.(ssa.Instruction); ok && o.Label == "own" {
							r.require("own-certificate", ctx, i, "use of the provider's own certificate", has("none"), "no certificate to have been presented")
						}
					}
				})
			}
			checksums(p, r)
		},
	})
}

// ownCert labels the provider's own certificate.
func ownCert(v ssa.Value) string {
	if c, _ := callOf(v); c != nil && mname(&c.Call) == "PublicCertBytes" {
		return "own"
	}
	if loadedField(v) == "crypto/tls.Certificate.Leaf" {
		return "own"
	}
	return ""
}

// deleg: handing on all parameters to the same method of another provider establishes the facts.
func deleg(s *Spec, f *ssa.Function, fam []*ssa.Function, n int, o Outcome, idx int, facts ...string) {
	var names []string
	for _, g := range fam {
		if g != f {
			names = append(names, fname(g))
			s.opaque[fname(g)] = true
		}
	}
	for _, fact := range facts {
		s.result(fact, idx, o, func(c ssa.CallInstruction) bool { return passThrough(f, c, n) }, names...)
		if fact == "privileged" {
			s.result(fact, 0, True, func(c ssa.CallInstruction) bool { return passThrough(f, c, n) }, names...)
		}
	}
}

// chainOptions: the verification uses a root pool that the CA was added to, and accepts client certificates only.
func chainOptions(p *Prog, opts ssa.Value) bool {
	roots, ok := litFields(p, opts, "Roots")
	if !ok || len(roots) == 0 {
		return false
	}
	for _, v := range roots {
		if phiNil(v, 0) || !poolFilled(p, v) { // no pool means the system's

			return false
		}
	}
	if vs, _ := litFields(p, opts, "CurrentTime"); len(vs) != 0 {
		return false
	}
	use, ok := litFields(p, opts, "KeyUsages")
	if !ok || len(use) == 0 {
		return false // the default of crypto/x509 is server authentication
	}
	for _, v := range use {
		for _, o := range (&Flow{P: p}).From(v) {
			if !isConstN(o.V, 2) { // x509.ExtKeyUsageClientAuth
				return false
			}
		}
	}
	return true
}

// phiNil: the value can be a literal nil here, without a call in between.
func phiNil(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if d < 8 && phiNil(e, d+1) {
				return true
			}
		}
	}
	return false
}

// poolFilled: the pool is made empty and every use of it comes after a successful addition of the CA read from a file.
func poolFilled(p *Prog, pool ssa.Value) bool {
	fl := &Flow{P: p}
	for _, o := range fl.From(pool) {
		if o.Label == "?nil" {
			continue
		}
		if o.Label != "call:crypto/x509.NewCertPool" {
			return false
		}
		// whoever makes the pool fills it, or fails
		mk := o.V.(*ssa.Call)
		filled := false
		calls(mk.Parent(), func(c ssa.CallInstruction) {
			if cname(c.Common()) != "(*crypto/x509.CertPool).AppendCertsFromPEM" || !sameOrigins(fl, recvArg(c.Common()), mk) {
				return
			}
			if !fl.Only(args(c.Common())[0], "call:os.ReadFile", "?nil") {
				return
			}
			cc, ok := c.(*ssa.Call)
			if !ok {
				return
			}
			// the result decides
			s := newSpec(p)
			s.result("added", 0, True, func(x ssa.CallInstruction) bool { return x == c }, "(*crypto/x509.CertPool).AppendCertsFromPEM")
			a := s.facts()
			good := true
			errIdx := -1
			res := mk.Parent().Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if isErr(res.At(i).Type()) {
					errIdx = i
				}
			}
			if errIdx < 0 {
				return
			}
			st := a.state(mk.Parent())
			for _, ret := range a.returns(mk.Parent()) {
				v := ret.Results[errIdx]
				if contradicted(v, Nil, ret.Block(), nil) {
					continue
				}
				for _, d := range ordered(st.in[ret.Block()]) {
					if impossible(d, v, Nil) {
						continue
					}
					have := a.throughD(st, d, ret.Block(), ret).union(a.impliesD(st, d, v, Nil, ret.Block(), map[visitKey]bool{}))
					if !have.top && !has("added")(have.noParams()) {
						good = false
					}
				}
			}
			_ = cc
			if good {
				filled = true
			}
		})
		if !filled {
			return false
		}
	}
	return true
}

// certName: the value is one of the names in a certificate.
func certName(fl *Flow, v ssa.Value) bool {
	ls := fl.Labels(v)
	delete(ls, "?nil")
	delete(ls, "?zero")
	if len(ls) == 0 {
		return false
	}
	for l := range ls {
		switch l {
		case "field:crypto/x509/pkix.Name.CommonName", "field:" + certPkg + "DNSNames", "field:" + certPkg + "EmailAddresses":
		default:
			return false
		}
	}
	return true
}

func onlyFieldNamed(fl *Flow, v ssa.Value, name string) bool {
	ls := fl.Labels(v)
	if len(ls) == 0 {
		return false
	}
	for l := range ls {
		if !strings.HasPrefix(l, "field:") || !strings.HasSuffix(l, "."+name) {
			return false
		}
	}
	return true
}

// reachesFn: g is reachable from f through calls.
func reachesFn(p *Prog, f, g *ssa.Function) bool {
	found := false
	reachCalls(p, f, func(c ssa.CallInstruction) {
		if c.Parent() == g {
			found = true
		}
	})
	return found
}

// matchAny: the list matcher says yes only when an item of the list matches the string.
func matchAny(p *Prog, r *Report) {
	f := r.anchor("match", "providers/security/filesec.MatchAnyRegex")
	if f == nil {
		return
	}
	s := newSpec(p)
	fl := &Flow{P: p, Stop: paramStop(f), Derive: derive(map[string]int{"strings.TrimLeft": 0, "strings.TrimRight": 0, "strings.TrimPrefix": 0, "strings.TrimSuffix": 0, "strings.Trim": 0, "regexp.Compile": 0, "regexp.MustCompile": 0})}
	ok := func(c ssa.CallInstruction) bool {
		av := args(c.Common())
		pat := recvArg(c.Common())
		str := av[0]
		if pat == nil {
			pat, str = av[0], av[1]
		}
		return fl.Only(pat, "P1", "?nil") && fl.Only(str, "P0")
	}
	s.result("matched", 0, True, ok, "regexp.MatchString", "(*regexp.Regexp).MatchString")
	n := r.returnsRequire("match", s.facts(), f, 0, True, has("matched"), "reports a match", "an expression of the list to match the string")
	r.need("match", "matching returns", n, 1)
}

// checksums: the providers' checksum is the sha256 of all of the data.
func checksums(p *Prog, r *Report) {
	n := 0
	for _, f := range p.implsOf("inter.SecurityProvider", "ChecksumBytes") {
		r.seen(f)
		n++
		ok := false
		for _, b := range f.Blocks {
			ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !is || b == f.Recover {
				continue
			}
			ok = true
			fl := &Flow{P: p, NoCallers: true, Stop: paramStop(f)}
			fl.Derive = func(c *ssa.Call) []ssa.Value {
				switch cname(&c.Call) {
				case "crypto/sha256.Sum256":
					return c.Call.Args
				case "(hash.Hash).Sum":
					// what was written to it
					var ws []ssa.Value
					calls(c.Parent(), func(w ssa.CallInstruction) {
						if (mname(w.Common()) == "Write" || cname(w.Common()) == "io.WriteString") && recvArg(w.Common()) == recvArg(&c.Call) {
							ws = append(ws, args(w.Common())[0])
						}
					})
					hf := &Flow{P: p, NoCallers: true}
					if len(ws) == 1 && hf.Only(recvArg(&c.Call), "call:crypto/sha256.New") {
						return ws
					}
				}
				if mname(&c.Call) == "ChecksumBytes" {
					return args(&c.Call)
				}
				return nil
			}
			if !fl.Only(ret.Results[0], "P0") {
				ok = false
			}
		}
		r.ob("checksum", fname(f)+": checksum", ok, p.pos(f.Pos()), "must be the sha256 of the data given")
	}
	r.need("checksum", "checksum functions", n, 2)
}

// tokenFlow follows claims and keys back to the token they were parsed from.
func tokenFlow(p *Prog, f *ssa.Function) *Flow {
	fl := &Flow{P: p, Stop: paramStopIn(p, f)}
	fl.Via = map[string]bool{
		"tokens.StandardClaims.PublicKey":      true,
		"tokens.ClientIDClaims.StandardClaims": true,
		"tokens.ServerClaims.StandardClaims":   true,
		"tokens.ClientIDClaims.Permissions":    true,
	}
	fl.Derive = func(c *ssa.Call) []ssa.Value {
		switch cname(&c.Call) {
		case "tokens.ParseClientIDToken", "tokens.ParseServerToken", "tokens.ParseClientIDTokenUnverified", "encoding/hex.DecodeString", "tokens.TokenPurpose", "tokens.TokenPurposeBytes", "tokens.ParseTokenUnverified":
			return c.Call.Args[:1]
		}
		return nil
	}
	return fl
}

var trustedKeys = []string{"Issuers", "TrustedTokenSigners"}

// trustedKey: the key is one of the configured issuers or signers.
func trustedKey(p *Prog, v ssa.Value) bool {
	ls := (&Flow{P: p}).Labels(v)
	delete(ls, "?nil")
	if len(ls) == 0 {
		return false
	}
	for l := range ls {
		ok := false
		for _, k := range trustedKeys {
			if l == "field:providers/security/choria.Config."+k {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// tokenSpec: facts about the tokens in the list of public data, named by their position in it.
func tokenSpec(p *Prog, f *ssa.Function, list string) *Spec {
	s := newSpec(p)
	fl := tokenFlow(p, f)
	pos := func(v ssa.Value) string {
		ls := fl.Labels(v)
		delete(ls, "?nil")
		delete(ls, "?zero")
		if len(ls) != 1 {
			return ""
		}
		for l := range ls {
			if strings.HasPrefix(l, list+"[") {
				return strings.TrimPrefix(l, list)
			}
		}
		return ""
	}
	s.cond(func(v ssa.Value, o Outcome) []string {
		// results of parsing; the value tested is the error
		c, idx := callOf(v)
		if c != nil && o == Nil && idx == 1 {
			switch cname(&c.Call) {
			case "tokens.ParseClientIDToken", "tokens.ParseServerToken":
				kind := "client"
				if cname(&c.Call) == "tokens.ParseServerToken" {
					kind = "server"
				}
				if w := pos(c.Call.Args[0]); w != "" && trustedKey(p, c.Call.Args[1]) {
					if kind == "client" {
						if k, ok := constBool(c.Call.Args[2]); !ok || !k {
							return nil
						}
					}
					return []string{"parsed." + kind + w}
				}
			case "tokens.ParseClientIDTokenUnverified":
				if w := pos(c.Call.Args[0]); w != "" {
					return []string{"read.client" + w}
				}
			}
		}
		if lf := loadedField(v); strings.HasPrefix(lf, "tokens.ClientPermissions.") {
			if w := pos(loadedBase(v)); w != "" {
				n := strings.TrimPrefix(lf, "tokens.ClientPermissions.")
				if o == True {
					return []string{n + w}
				}
				if o == False {
					return []string{"!" + n + w}
				}
			}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if fl.Only(pr[0], "P0") && loadedField(pr[1]) == "tokens.ClientIDClaims.CallerID" {
					if w := pos(loadedBase(pr[1])); w != "" {
						return []string{"named" + w}
					}
				}
			}
		}
		return nil
	})
	s.cond(func(v ssa.Value, o Outcome) []string {
		c, idx := callOf(v)
		if c == nil || idx != 0 || o != True {
			return nil
		}
		av := args(&c.Call)
		switch cname(&c.Call) {
		case "internal/util.Ed25519Verify", "crypto/ed25519.Verify":
			if w := pos(av[0]); w != "" && fl.Only(av[1], "P0") && fl.Only(av[2], "P1") && onlyKeys(p, av[0]) {
				return []string{"signed" + w}
			}
		}
		return nil
	})
	s.opaque["internal/util.Ed25519Verify"] = true
	return s
}

// onlyKeys: the value is the public key held in claims.
func onlyKeys(p *Prog, v ssa.Value) bool {
	fl := &Flow{P: p, Derive: derive(map[string]int{"encoding/hex.DecodeString": 0})}
	ls := fl.Labels(v)
	delete(ls, "?nil")
	delete(ls, "?zero")
	return len(ls) == 1 && ls["field:tokens.StandardClaims.PublicKey"]
}

func init() {
	register(&Check{
		ID: "S02", Level: "proof",
		Rule:        "in the token based security provider, every return that accepts a signature passed an ed25519 check of the data by the key in a token that was parsed with a configured issuer or trusted signer: the caller's own server token, or its client token with fleet access that does not demand delegation, or a second token that is an authentication delegator whose caller token was parsed too and has fleet access; every return that allows a caller compared the name with that token, or has a delegator",
		Explanation: "path-sensitive must-facts at every return of the provider's verification methods; the facts name the position in the public data the token came from, by provenance of the arguments of the token parser, of the permission tested and of the key used",
		Assume:      []string{"choria-io/tokens verifies signature, validity and purpose", "ed25519 is sound"},
		Run: func(p *Prog, r *Report) {
			nv, na := 0, 0
			for _, bt := range p.implsOf("inter.SecurityProvider", "BackingTechnology") {
				if backing(p, bt) != 2 {
					continue
				}
				T := typeName(bt.Params[0].Type())
				for _, f := range p.Funcs {
					if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() == nil || typeName(f.Params[0].Type()) != T {
						continue
					}
					switch f.Name() {
					case "VerifySignatureBytes":
						a := tokenSpec(p, f, "P2").facts()
						nv += r.returnsRequire("signature", a, f, 0, True, anyOf(
							has("parsed.server[0]", "signed[0]"),
							has("parsed.client[0]", "FleetManagement[0]", "!SignedFleetManagement[0]", "signed[0]"),
							has("parsed.client[1]", "AuthenticationDelegator[1]", "signed[1]", "parsed.client[0]", "FleetManagement[0]"),
							has("parsed.client[1]", "AuthenticationDelegator[1]", "signed[1]", "parsed.client[0]", "SignedFleetManagement[0]"),
						), "accepts a signature", "a verification by the key in a trusted, permitted token")
					case "ShouldAllowCaller":
						a := tokenSpec(p, f, "P1").facts()
						na += r.returnsRequire("caller", a, f, 1, Nil, anyOf(
							has("read.client[0]", "named[0]", "FleetManagement[0]"),
							has("read.client[0]", "named[0]", "SignedFleetManagement[0]"),
							has("read.client[1]", "AuthenticationDelegator[1]", "read.client[0]", "FleetManagement[0]"),
							has("read.client[1]", "AuthenticationDelegator[1]", "read.client[0]", "SignedFleetManagement[0]"),
						), "allows a caller", "a fleet token naming the caller, or a delegator's")
					}
				}
			}
			r.need("signature", "accepting returns", nv, 1)
			r.need("caller", "allowing returns", na, 1)
			edVerify(p, r)
		},
	})
}

// edVerify: the verification helper says yes only when ed25519 does, for the very arguments.
func edVerify(p *Prog, r *Report) {
	n := 0
	for _, name := range []string{"internal/util.Ed25519Verify", "choria.Ed25519Verify"} {
		f := p.fn(name)
		if f == nil {
			continue
		}
		n++
		s := newSpec(p)
		ps := paramStop(f)
		s.result("ed", 0, True, func(c ssa.CallInstruction) bool { return passThroughAny(c, ps) }, "crypto/ed25519.Verify", "internal/util.Ed25519Verify")
		if name != "internal/util.Ed25519Verify" {
			s.opaque["internal/util.Ed25519Verify"] = true
		}
		r.returnsRequire("ed25519", s.facts(), f, 0, True, has("ed"), "reports a good signature", "ed25519 to say so for the arguments given")
	}
	r.need("ed25519", "verification helpers", n, 1)
}

func passThroughAny(c ssa.CallInstruction, ps func(v ssa.Value) string) bool {
	for i, a := range args(c.Common()) {
		if ct, ok := a.(*ssa.ChangeType); ok {
			a = ct.X
		}
		if ps(a) != "P"+strconv.Itoa(i) {
			return false
		}
	}
	return true
}
