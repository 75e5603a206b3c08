package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Deployment of plugins and autonomous agents: archives, specifications, public keys.

const (
	archA = "aagent/watchers/archivewatcher."
	plugA = "aagent/watchers/pluginswatcher."
	machA = "aagent/watchers/machineswatcher."
	iuA   = "internal/util."
)

// inPkg lists the functions of a package, by its path in the module.
func (p *Prog) inPkg(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if fnPkgPath(f) == modPath+"/"+pkg {
			out = append(out, f)
		}
	}
	return out
}

// callsIn: the calls to some functions made by the code of a package.
func (p *Prog) callsIn(pkg string, names ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, c := range p.callsTo(names...) {
		if fnPkgPath(c.Parent()) == modPath+"/"+pkg {
			out = append(out, c)
		}
	}
	return out
}

// pkgConst is the value of a constant of a package of the module.
func (p *Prog) pkgConst(pkg, name string) constant.Value {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == modPath+"/"+pkg {
			if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return c.Val()
			}
		}
	}
	return nil
}

// returnsConst records that whenever a function returns a constant as its result idx, pred holds.
func (r *Report) returnsConst(rule string, a *Facts, f *ssa.Function, idx int, val constant.Value, pred func(Set) bool, what, want string) int {
	st := a.state(f)
	n := 0
	for _, ret := range a.returns(f) {
		if idx >= len(ret.Results) {
			continue
		}
		ok, live := true, false
		var wit Set
		if ld, isL := ret.Results[idx].(*ssa.UnOp); isL && ld.Op == token.MUL {
			// a result that is kept in a variable
			if _, stores, known := localStores(a.P, ld.X); known {
				rs, _ := reachingStores(stores, ld)
				for _, x := range rs {
					if c, isC := x.Val.(*ssa.Const); isC && c.Value != nil && constant.Compare(c.Value, token.EQL, val) && x.Parent() == f {
						have := a.through(st, x.Block(), x)
						if have.top {
							continue
						}
						live = true
						for _, one := range have.noParams().each() {
							if !pred(one) {
								ok, wit = false, one
							}
						}
					}
				}
			}
		}
		for _, d := range ordered(st.in[ret.Block()]) {
			c, isC := constOf(d, ret.Results[idx])
			if !isC || c.Value == nil || !constant.Compare(c.Value, token.EQL, val) {
				continue
			}
			have := a.throughD(st, d, ret.Block(), ret)
			if have.top {
				continue
			}
			live = true
			for _, one := range have.noParams().each() {
				if !pred(one) {
					ok, wit = false, one
				}
			}
		}
		if !live {
			continue
		}
		n++
		det := "holds: " + want
		if !ok {
			det = "can return this without " + want + "; established: " + wit.String()
		}
		r.at(rule, ret, what, ok, det)
	}
	return n
}

// resultIdx is the index of the result of a named type of the module, -1 for none.
func resultIdx(f *ssa.Function, typ string) int {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if typeName(res.At(i).Type()) == typ {
			return i
		}
	}
	return -1
}

func init() {
	register(&Check{
		ID: "M01", Level: "proof",
		Rule:        "a downloaded archive is only moved into place when its checksum, and when set that of its checksum file and those of its contents, were those configured; only such contents are reported verified. Archives only create plain files and directories below the directory they are extracted to. Specifications of plugins and machines are only used when no public key is set or their signature verified using it, keys compiled in or configured override those in the machine; every entry in them is complete and names a directory below that of the machine, and is only deployed to nodes it matches",
		Explanation: "must-facts on all paths to moves, writes, decodes and returns, provenance of paths, sums, keys and messages, checks that hold at the end of every pass over the entries",
		Run: func(p *Prog, r *Report) {
			archives(p, r)
			untars(p, r)
			specifications(p, r)
			signerKeys(p, r)
			sumsVerified(p, r)
		},
	})
}

func archives(p *Prog, r *Report) {
	s := newSpec(p)
	fromField := func(v ssa.Value, name string) bool {
		fl := &Flow{P: p, Derive: deriveAs(map[string]int{"ProcessTemplate": 0})}
		return onlyOf(fl, v, "field:"+archA+"Properties."+name)
	}
	s.result("archive", 0, True, func(c ssa.CallInstruction) bool { return fromField(args(c.Common())[1], "ArchiveChecksum") }, iuA+"FileHasSha256Sum")
	s.result("sums", 0, True, func(c ssa.CallInstruction) bool {
		return fromField(args(c.Common())[1], "ContentChecksumsChecksum")
	}, iuA+"FileHasSha256Sum")
	s.result("content", 0, True, func(c ssa.CallInstruction) bool { return true }, iuA+"Sha256VerifyDir")
	s.opaque[iuA+"FileHasSha256Sum"] = true
	s.opaque[iuA+"Sha256VerifyDir"] = true
	s.result("dir", 0, True, func(c ssa.CallInstruction) bool { return true }, iuA+"FileIsDir")
	s.cond(func(v ssa.Value, o Outcome) []string {
		x, empty, ok := emptiness(v, o)
		if !ok || !empty {
			return nil
		}
		switch loadedField(x) {
		case archA + "Properties.ContentChecksums":
			return []string{"none"}
		case archA + "Properties.ContentChecksumsChecksum":
			return []string{"unchecked"}
		}
		return nil
	})
	s.result("moved", 0, Nil, func(c ssa.CallInstruction) bool { return true }, "os.Rename")
	a := s.facts()
	ctx := a.Whole()
	pkg := "aagent/watchers/archivewatcher"
	whole := anyOf(has("none"), has("unchecked"), has("sums", "content"))

	moves := p.callsIn(pkg, "os.Rename")
	for _, c := range moves {
		r.require("moved", ctx, c, "archive moved into place", allOf(has("archive"), whole), "the configured checksum of the archive, and of its contents when set")
	}
	r.need("moved", "moves into place", len(moves), 1)

	verified, downloaded := p.pkgConst(pkg, "VerifiedOK"), p.pkgConst(pkg, "Downloaded")
	r.ob("reported", pkg+".VerifiedOK", verified != nil && downloaded != nil, "", "the outcomes must be known")
	if verified != nil && downloaded != nil {
		n, m := 0, 0
		for _, f := range p.inPkg(pkg) {
			i := resultIdx(f, archA+"State")
			if i < 0 {
				continue
			}
			n += r.returnsConst("reported", a, f, i, verified, allOf(has("dir"), whole), "contents reported verified", "their presence and the checksums configured")
			m += r.returnsConst("reported", a, f, i, downloaded, has("moved"), "archive reported downloaded", "it having been moved into place")
		}
		r.need("reported", "contents reported verified", n, 1)
		r.need("reported", "archives reported downloaded", m, 1)
	}

	// the file whose sum was checked is the one downloaded and extracted, the directory verified the one moved
	paths := &Flow{P: p, Stop: callSource("CreateTemp", "MkdirTemp"), Derive: deriveAs(map[string]int{"Name": -1, "Join": 0, "Clean": 0, "Dir": 0})}
	temp := func(rule string, c ssa.CallInstruction, v ssa.Value, what, label string) {
		fl := *paths
		r.at(rule, c, what, onlyOf(&fl, v, label), "must be the temporary one made for this download")
	}
	tmpFile, tmpDir := "result:CreateTemp", "result:MkdirTemp"
	n := 0
	for _, c := range p.callsIn(pkg, iuA+"FileHasSha256Sum") {
		if fromField(args(c.Common())[1], "ArchiveChecksum") {
			n++
			temp("same", c, args(c.Common())[0], "archive checksummed", tmpFile)
		}
	}
	r.need("same", "archives checksummed", n, 1)
	n = 0
	for _, c := range p.callsIn(pkg, "os.Open", "os.OpenFile", "os.ReadFile") {
		if !feeds(p, c, "compress/gzip.NewReader", "archive/tar.NewReader") {
			continue
		}
		n++
		temp("same", c, args(c.Common())[0], "archive extracted", tmpFile)
	}
	r.need("same", "archives extracted", n, 1)
	for _, c := range moves {
		temp("same", c, args(c.Common())[0], "directory moved into place", tmpDir)
	}
	n = 0
	for _, c := range p.callsIn(pkg, iuA+"Sha256VerifyDir") {
		av := args(c.Common())
		n++
		// the sums file is the one whose sum was checked, and is in the directory verified
		before := p.precededBy(c, func(i ssa.Instruction) bool {
			h, ok := i.(ssa.CallInstruction)
			if !ok || !nameIn(cname(h.Common()), iuA+"FileHasSha256Sum") {
				return false
			}
			return args(h.Common())[0] == av[0] || sameJoin(args(h.Common())[0], av[0])
		})
		r.at("same", c, "checksums used", before, "must be those of the file whose checksum was checked")
		r.at("same", c, "directory verified", inDir(p, av[0], av[1]), "must be that of the checksums")
	}
	r.need("same", "directories verified", n, 1)
	// in the extraction the directory verified is the one extracted to and given back
	for _, f := range p.inPkg(pkg) {
		for _, c := range callsWithin(f, "os.MkdirTemp") {
			us := callsTaking(p, f, c)
			if !p.reaches(f, "archive/tar.NewReader") || len(us) == 0 {
				continue
			}
			for _, u := range us {
				if !p.callReaches(u, iuA+"Sha256VerifyDir") {
					continue
				}
				for _, x := range args(u.Common()) {
					if isString(x.Type()) {
						fl := &Flow{P: p, NoCallers: true, Stop: callSource("MkdirTemp"), Derive: deriveAs(map[string]int{"Join": 0})}
						r.at("same", u, "directory verified", onlyOf(fl, x, tmpDir), "must be the one extracted to")
					}
				}
			}
		}
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// deriveAs follows, by the name of the method called, an argument (-1 the receiver, -2 all that were joined). Of paths
// joined it follows the first.
func deriveAs(m map[string]int) func(c *ssa.Call) []ssa.Value {
	return func(c *ssa.Call) []ssa.Value {
		n := mname(&c.Call)
		i, ok := m[n]
		if !ok {
			return nil
		}
		if i == -1 {
			return []ssa.Value{recvArg(&c.Call)}
		}
		av := args(&c.Call)
		if n == "Join" && len(av) > 0 {
			vs := varargs(av[0])
			if i == -2 || len(vs) == 0 {
				return vs
			}
			return vs[:1]
		}
		if i >= 0 && i < len(av) {
			return av[i : i+1]
		}
		return nil
	}
}

// sameJoin: both are made by joining the same paths.
func sameJoin(a, b ssa.Value) bool {
	ca, cb := canonVal(a, 6), canonVal(b, 6)
	return ca != "" && ca == cb
}

// inDir: file is made by joining a path with dir.
func inDir(p *Prog, file, dir ssa.Value) bool {
	fl := &Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
		if v == dir {
			return "it"
		}
		return ""
	}, Derive: deriveAs(map[string]int{"Join": 0})}
	return file != dir && onlyOf(fl, file, "it")
}

// nonNeg: a count that starts at a constant that is not negative and only grows.
func nonNeg(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if n, ok := constInt(v); ok {
		return n >= 0
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !nonNeg(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return x.Op == token.ADD && nonNeg(x.X, seen) && nonNeg(x.Y, seen)
	}
	return false
}

// callsWithin: calls made in a function to some functions.
func callsWithin(f *ssa.Function, names ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && nameIn(cname(c.Common()), names...) {
				out = append(out, c)
			}
		}
	}
	return out
}

// callsTaking: calls in f with an argument that comes from the result of c.
func callsTaking(p *Prog, f *ssa.Function, c ssa.CallInstruction) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			u, ok := i.(ssa.CallInstruction)
			if !ok || u == c {
				continue
			}
			for _, x := range u.Common().Args {
				fl := &Flow{P: p, NoCallers: true, NoDescend: true, Stop: func(v ssa.Value) string {
					if k, _ := callOf(v); k != nil && ssa.CallInstruction(k) == c {
						return "it"
					}
					return ""
				}, Derive: deriveAs(map[string]int{"Join": 0})}
				if fl.Any(x, "it") {
					out = append(out, u)
					break
				}
			}
		}
	}
	return out
}

// reaches: running f may call a function.
func (p *Prog) reaches(f *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if nameIn(cname(c.Common()), name) {
						return true
					}
					for _, h := range p.callees(c) {
						if p.InRepo[h] && walk(h) {
							return true
						}
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

func (p *Prog) callReaches(c ssa.CallInstruction, name string) bool {
	if nameIn(cname(c.Common()), name) {
		return true
	}
	for _, h := range p.callees(c) {
		if p.InRepo[h] && p.reaches(h, name) {
			return true
		}
	}
	return false
}

// feeds: what the call gives reaches the first argument of a call to one of some functions.
func feeds(p *Prog, c ssa.CallInstruction, names ...string) bool {
	for _, u := range p.callsTo(names...) {
		fl := &Flow{P: p, Stop: func(v ssa.Value) string {
			if k, _ := callOf(v); k != nil && ssa.CallInstruction(k) == c {
				return "it"
			}
			return ""
		}}
		if fl.Any(args(u.Common())[0], "it") {
			return true
		}
	}
	return false
}

// untars: what tar archives can create.
func untars(p *Prog, r *Report) {
	hdr := "field:archive/tar.Header."
	isName := func(v ssa.Value) bool {
		fl := &Flow{P: p, Derive: deriveAs(map[string]int{"Join": -2, "Clean": 0, "FromSlash": 0})}
		return fl.Any(v, hdr+"Name")
	}
	s := containedSpec(p, func(v ssa.Value) bool { return onlyOf(&Flow{P: p, NoDescend: true}, v, hdr+"Name") })
	s.cond(func(v ssa.Value, o Outcome) []string {
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if loadedField(pr[0]) == "archive/tar.Header.Typeflag" {
					if n, isN := constInt(pr[1]); isN && (n == '0' || n == '5') {
						return []string{"plain"}
					}
				}
			}
		}
		if c, _ := callOf(v); c != nil && o == True && nameIn(mname(&c.Call), "IsRegular", "IsDir") {
			return []string{"plain"}
		}
		return nil
	})
	a := s.facts()
	ctx := a.Whole()
	n := 0
	for _, c := range p.callsTo("os.OpenFile", "os.Create", "os.MkdirAll", "os.Mkdir", "os.WriteFile", "os.Symlink", "os.Link") {
		if !p.InRepo[c.Parent()] {
			continue
		}
		av := args(c.Common())
		linked := nameIn(cname(c.Common()), "os.Symlink", "os.Link")
		hit := isName(av[0]) || (linked && (isName(av[1]) || (&Flow{P: p}).Any(av[0], hdr+"Linkname")))
		if !hit {
			continue
		}
		n++
		r.at("extract", c, "created from an archive", !linked, "links may not be made")
		r.require("extract", ctx, c, "created from an archive", allOf(has("plain"), anyOf(has("nodots"), contained)), "it being a plain file or directory with a name that stays below the directory")
	}
	r.need("extract", "places archives are extracted", n, 2)
}

type specKind struct{ pkg, a, entry, body string }

var specKinds = []specKind{
	{"aagent/watchers/pluginswatcher", plugA, "ManagedPlugin", "Plugins"},
	{"aagent/watchers/machineswatcher", machA, "ManagedMachine", "Machines"},
}

func specifications(p *Prog, r *Report) {
	for _, k := range specKinds {
		body := "field:" + k.a + "Specification." + k.body
		decoded := deriveAs(map[string]int{"DecodeString": 0})
		s := newSpec(p)
		s.result("verified", 0, True, func(c ssa.CallInstruction) bool {
			av := args(c.Common())
			key := onlyOf(&Flow{P: p, Derive: decoded}, av[0], "field:"+k.a+"Properties.PublicKey")
			return key && onlyOf(&Flow{P: p, Derive: decoded}, av[1], body) &&
				onlyOf(&Flow{P: p, Derive: decoded}, av[2], "field:"+k.a+"Specification.Signature")
		}, iuA+"Ed25519Verify", "crypto/ed25519.Verify")
		s.opaque[iuA+"Ed25519Verify"] = true
		s.cond(func(v ssa.Value, o Outcome) []string {
			if x, empty, ok := emptiness(v, o); ok && empty && loadedField(x) == k.a+"Properties.PublicKey" {
				return []string{"unsigned"}
			}
			return nil
		})
		a := s.facts()
		ctx := a.Whole()
		n := 0
		for _, f := range p.inPkg(k.pkg) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(ssa.CallInstruction)
					if !ok || !nameIn(cname(c.Common()), "encoding/json.Unmarshal") {
						continue
					}
					if !strings.HasSuffix(deref(unIface(c.Common().Args[1]).Type()).String(), "[]*"+modPath+"/"+k.a+k.entry) {
						continue
					}
					n++
					r.require("signed", ctx, c, "entries used", anyOf(has("unsigned"), has("verified")), "no public key, or a signature that verified using it")
					r.at("signed", c, "entries used", onlyOf(&Flow{P: p, Derive: decoded}, c.Common().Args[0], body), "must be those of the specification whose signature is verified")
				}
			}
		}
		r.need("signed", k.entry+" decoded", n, 1)
		entries(p, r, k)
		matched(p, r, k)
		template(p, r, k)
	}
}

// entries: every entry of a specification is complete and contained.
func entries(p *Prog, r *Report, k specKind) {
	pre := k.a + k.entry + "."
	s := containedSpec(p, func(v ssa.Value) bool { return loadedField(v) == pre+"Name" })
	for _, fld := range []string{"Name", "Source", "ArchiveChecksum", "ContentChecksumsChecksum"} {
		s.nonEmpty("has "+fld, pre+fld)
	}
	a := s.facts()
	n := 0
	for _, f := range p.inPkg(k.pkg) {
		dec := false
		for _, c := range callsWithin(f, "encoding/json.Unmarshal") {
			if strings.HasSuffix(deref(unIface(c.Common().Args[1]).Type()).String(), "[]*"+modPath+"/"+k.a+k.entry) {
				dec = true
			}
		}
		if !dec {
			continue
		}
		for _, l := range p.findLoops(f, func(l *loop) bool {
			v, ok := l.visits()
			return ok && strings.HasSuffix(v.Type().String(), "[]*"+modPath+"/"+k.a+k.entry)
		}) {
			n++
			r.everyPassFails("entries", a, l, "entries of the specification", "a name within the directory, a source and checksums", allOf(contained, has("has Name", "has Source", "has ArchiveChecksum", "has ContentChecksumsChecksum")))
			r.alwaysVisits("entries", a, f, l, "entries of the specification")
		}
	}
	r.need("entries", "passes over the entries decoded", n, 1)
}

// matched: machines are only written where their matcher matches.
func matched(p *Prog, r *Report, k specKind) {
	s := newSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if x, empty, ok := emptiness(v, o); ok && empty && onlyOf(&Flow{P: p}, x, "field:"+k.a+k.entry+".Matcher") {
			return []string{"matches"}
		}
		if o != True {
			return nil
		}
		fl := &Flow{P: p, NoCallers: true, NoDescend: true, Stop: callSource("Run")}
		if _, isB := v.Type().Underlying().(*types.Basic); isB && onlyOf(fl, v, "result:Run") {
			return []string{"matches"}
		}
		return nil
	})
	a := s.facts()
	ctx := a.Whole()
	n := 0
	for _, c := range p.callsIn(k.pkg, "os.WriteFile", "os.OpenFile", "os.Create", "os.Rename", "os.MkdirAll", "os.Mkdir") {
		n++
		r.require("matched", ctx, c, "deployment", has("matches"), "the node matching the entry")
	}
	r.need("matched", "deployments of "+k.entry, n, 1)
	for _, c := range p.callsIn(k.pkg, "github.com/expr-lang/expr.Compile") {
		r.at("matched", c, "expression", onlyOf(&Flow{P: p}, c.Common().Args[0], "field:"+k.a+k.entry+".Matcher"), "must be that of the entry")
	}
	// nothing that is still wanted is removed
	for _, f := range p.inPkg(k.pkg) {
		for _, c := range callsOf(f) {
			mc, ok := c.(*ssa.Call)
			if !ok || !p.callReaches(c, "github.com/expr-lang/expr.Run") || mc.Call.Signature().Results().Len() == 0 {
				continue
			}
			rm := callsWithin(f, "os.RemoveAll")
			if len(rm) == 0 || len(callsWithin(f, "os.WriteFile")) > 0 {
				continue
			}
			outer := outermost(f, mc.Block())
			if outer == nil {
				continue
			}
			head := outer.head.Instrs[0]
			okP, missed := p.mustPass(mc, mc, 0, True, func(i ssa.Instruction) bool { return i == head }, func(i ssa.Instruction) bool {
				for _, x := range rm {
					if ssa.Instruction(x) == i {
						return true
					}
				}
				return false
			})
			var at ssa.Instruction = mc
			if missed != nil {
				at = missed
			}
			r.at("matched", at, "removal of what is not wanted", okP, "an entry that matches the node may not be removed")
		}
	}
}

func callsOf(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	calls(f, func(c ssa.CallInstruction) { out = append(out, c) })
	return out
}

func outermost(f *ssa.Function, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range loopsOf(f) {
		if l.body[b] && (best == nil || len(l.body) > len(best.body)) {
			best = l
		}
	}
	return best
}

// template: the machine that manages a deployment passes on the checksums.
func template(p *Prog, r *Report, k specKind) {
	b, err := os.ReadFile(filepath.Join(p.Root, k.pkg, "machine.yaml"))
	text := strings.ReplaceAll(string(b), " ", "")
	for _, want := range []string{`checksum:"{{.ArchiveChecksum}}"`, `verify_checksum:"{{.ContentChecksumsChecksum}}"`, `verify:"SHA256SUMS"`, `source:"{{.Source}}"`, `creates:"{{.Name}}"`, `target:"{{.Target}}"`} {
		found := false
		for _, l := range strings.Split(text, "\n") {
			if strings.TrimSpace(l) == want {
				found = true
			}
		}
		r.ob("template", k.pkg+"/machine.yaml "+want, err == nil && found, k.pkg+"/machine.yaml", "the machine that manages a deployment must hold "+want)
	}
}

// signerKeys: keys compiled in and configured override those of machines.
func signerKeys(p *Prog, r *Report) {
	for _, k := range specKinds {
		field := k.a + "Properties.PublicKey"
		isSigner := func(v ssa.Value) bool {
			c, _ := callOf(v)
			return c != nil && mname(&c.Call) == "SignerKey"
		}
		global := func(v ssa.Value) bool {
			ld, ok := v.(*ssa.UnOp)
			if !ok {
				return false
			}
			g, ok := ld.X.(*ssa.Global)
			return ok && g.Name() == "PublicKey" && g.Pkg.Pkg.Path() == modPath+"/"+k.pkg
		}
		from := func(v ssa.Value, is func(v ssa.Value) bool) bool {
			fl := &Flow{P: p, NoDescend: true, Stop: func(v ssa.Value) string {
				if is(v) {
					return "it"
				}
				return ""
			}}
			return onlyOf(fl, v, "it")
		}
		storedFrom := func(i ssa.Instruction, is func(v ssa.Value) bool) bool {
			st, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && fieldKey(fa) == field && from(st.Val, is)
		}
		s := newSpec(p)
		s.cond(func(v ssa.Value, o Outcome) []string {
			x, empty, ok := emptiness(v, o)
			if !ok || !empty {
				return nil
			}
			var fs []string
			if from(x, isSigner) {
				fs = append(fs, "no key configured")
			}
			if from(x, global) {
				fs = append(fs, "no key compiled in")
			}
			return fs
		})
		s.exec(func(i ssa.Instruction) []string {
			var fs []string
			if storedFrom(i, isSigner) {
				fs = append(fs, "configured key used", "compiled in key used")
			}
			if storedFrom(i, global) {
				fs = append(fs, "compiled in key used")
			}
			return fs
		})
		a := s.facts()
		n := 0
		if f := r.anchor("keys", k.a+"New"); f != nil {
			n = r.returnsRequire("keys", a, f, 1, Nil, allOf(anyOf(has("no key configured"), has("configured key used")), anyOf(has("no key compiled in"), has("compiled in key used"))), "watcher made", "the keys configured or compiled in overriding that of the machine")
		}
		r.need("keys", "watchers made for "+k.entry, n, 1)
		// nothing else sets the key, or decodes into the properties later
		m := 0
		for _, f := range p.inPkg(k.pkg) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); !ok || fieldKey(fa) != field {
						continue
					}
					m++
					r.at("keys", st, "public key set", storedFrom(i, isSigner) || storedFrom(i, global), "must be the key configured or compiled in")
					for _, c := range callsOf(f) {
						if reachableAfter(st, c) {
							r.at("keys", c, "runs after the public key is set", !p.callReaches(c, "aagent/util.ParseMapStructure"), "the properties may not be read again")
						}
					}
				}
			}
		}
		r.need("keys", "public keys set", m, 2)
	}
	// the configured key gets to the machines
	one := func(f *ssa.Function, label string) {
		if f == nil {
			return
		}
		for _, ret := range (&Spec{P: p, opaque: map[string]bool{}}).facts().returns(f) {
			fl := &Flow{P: p, NoCallers: true}
			r.at("keys", ret, "signer key", onlyOf(fl, ret.Results[0], label), "must be the one configured")
		}
	}
	one(r.anchor("keys", "(*server.Instance).MachineSignerKey"), "field:config.ChoriaPluginConfig.MachinesSignerPublicKey")
	one(r.anchor("keys", "(*aagent/machine.Machine).SignerKey"), "field:aagent/machine.Machine.signerKey")
	if f := r.anchor("keys", "(*aagent/machine.Machine).SetSignerKey"); f != nil {
		r.at("keys", f.Blocks[0].Instrs[0], "signer key", p.alwaysRuns(f, func(i ssa.Instruction) bool {
			st, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && fieldKey(fa) == "aagent/machine.Machine.signerKey" && paramOnly(&Flow{P: p, NoCallers: true}, st.Val, f, 0)
		}), "must be the one given")
	}
	n := 0
	ks := newSpec(p)
	ks.execCall("keyed", func(c ssa.CallInstruction) bool {
		fl := &Flow{P: p, NoCallers: true, NoDescend: true, Stop: callSource("MachineSignerKey")}
		return onlyOf(fl, args(c.Common())[0], "result:MachineSignerKey")
	}, "(*aagent/machine.Machine).SetSignerKey")
	ctx := ks.facts().Whole()
	for _, st := range p.fieldSt["aagent.AAgent.machines"] {
		fl := &Flow{P: p, NoCallers: true, NoDescend: true, Derive: derive(nil)}
		made := false
		for _, o := range fl.From(st.Val) {
			if al, isA := o.V.(*ssa.Alloc); isA && typeName(deref(al.Type())) == "aagent.managedMachine" {
				made = true
			}
		}
		if !made {
			continue
		}
		n++
		r.require("keys", ctx, st, "machine loaded", has("keyed"), "the signer key configured")
	}
	r.need("keys", "machines loaded", n, 1)
}

// sumsVerified: a directory is only found to match its checksums when every one of them was compared.
func sumsVerified(p *Prog, r *Report) {
	f := r.anchor("sums", iuA+"Sha256VerifyDir")
	if f == nil {
		return
	}
	s := newSpec(p)
	s.result("same", 0, True, func(c ssa.CallInstruction) bool { return true }, iuA+"FileHasSha256Sum")
	s.opaque[iuA+"FileHasSha256Sum"] = true
	s.cond(func(v ssa.Value, o Outcome) []string {
		if x, empty, ok := emptiness(v, o); ok && empty && onlyOf(&Flow{P: p, NoCallers: true, Stop: callSource("Text")}, x, "result:Text") {
			return []string{"blank"}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if paramOnly(&Flow{P: p, NoCallers: true}, pr[1], f, 0) && !isStringConst(pr[0]) {
					return []string{"sums file"}
				}
			}
		}
		return nil
	})
	a := s.facts()
	var l *loop
	for _, x := range loopsOf(f) {
		for _, c := range callsOf(f) {
			if x.body[c.Block()] && mname(c.Common()) == "FileHasSha256Sum" && (l == nil || len(x.body) < len(l.body)) {
				l = x
			}
		}
	}
	r.ob("sums", fname(f), l != nil, "", "the lines must be compared in a loop")
	if l == nil {
		return
	}
	// a line that is neither blank nor about the file itself, and was not found the same, must lead to false
	for _, c := range callsOf(f) {
		hc, ok := c.(*ssa.Call)
		if !ok || mname(c.Common()) != "FileHasSha256Sum" || !l.body[c.Block()] {
			continue
		}
		falseAfter(p, r, a, hc)
	}
	first := l.head.Instrs[0]
	// every pass compares, or is blank or the sums file, or fails
	st := a.state(f)
	ok := true
	var wit Set
	for _, pb := range l.head.Preds {
		if !l.body[pb] {
			continue
		}
		for _, d := range ordered(st.in[pb]) {
			end := a.throughD(st, d, pb, nil)
			si := 0
			for i, x := range pb.Succs {
				if x == l.head {
					si = i
				}
			}
			nd := a.edgeD(st, d, end, pb, l.head, si)
			if nd == nil || nd.facts.top {
				continue
			}
			for _, one := range nd.facts.noParams().each() {
				if one.has("blank") || one.has("sums file") {
					continue
				}
				comp := p.precededByFrom(l.head, pb, func(i ssa.Instruction) bool {
					c, ok := i.(ssa.CallInstruction)
					return ok && mname(c.Common()) == "FileHasSha256Sum"
				})
				if !comp {
					ok, wit = false, one
				}
			}
		}
	}
	r.at("sums", first, "lines compared", ok, "every line that is not blank or about the file itself must be compared; established: "+wit.String())
}

func isStringConst(v ssa.Value) bool { _, ok := constString(v); return ok }

// falseAfter: once a comparison was false the function never returns true with no error.
func falseAfter(p *Prog, r *Report, a *Facts, hc *ssa.Call) {
	f := hc.Parent()
	bad := ssa.Instruction(nil)
	seen := map[string]bool{}
	// track local booleans through phis
	type env map[ssa.Value]constant.Value
	var eval func(v ssa.Value, e env) constant.Value
	eval = func(v ssa.Value, e env) constant.Value {
		if c, ok := v.(*ssa.Const); ok {
			return c.Value
		}
		if x, ok := e[v]; ok {
			return x
		}
		if c, i := callOf(v); c == hc && i == 0 {
			return e[hc]
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return e[u.X]
		}
		if neverNil(v) {
			return constant.MakeString("set")
		}
		if bo, ok := v.(*ssa.BinOp); ok {
			y, isC := constInt(bo.Y)
			x := eval(bo.X, e)
			more := x != nil && x.Kind() == constant.String && constant.StringVal(x) == "positive"
			switch {
			case bo.Op == token.ADD && isC && y > 0 && (more || nonNeg(bo.X, map[ssa.Value]bool{})):
				return constant.MakeString("positive")
			case more && isC && y == 0 && (bo.Op == token.EQL || bo.Op == token.LEQ):
				return constant.MakeBool(false)
			case more && isC && y == 0 && (bo.Op == token.NEQ || bo.Op == token.GTR):
				return constant.MakeBool(true)
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			if x := eval(u.X, e); x != nil && x.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(x))
			}
		}
		return nil
	}
	var walk func(b, prev *ssa.BasicBlock, from int, e env)
	walk = func(b, prev *ssa.BasicBlock, from int, e env) {
		ne := env{}
		for k, v := range e {
			ne[k] = v
		}
		if prev != nil {
			idx := -1
			for i, q := range b.Preds {
				if q == prev {
					idx = i
				}
			}
			upd := env{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				upd[ph] = eval(ph.Edges[idx], e)
			}
			for k, v := range upd {
				if v == nil {
					delete(ne, k)
				} else {
					ne[k] = v
				}
			}
			key := blockKey(b, ne)
			if seen[key] {
				return
			}
			seen[key] = true
		}
		for i := from; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Store:
				if x := eval(in.Val, ne); x != nil {
					ne[in.Addr] = x
				} else {
					delete(ne, in.Addr)
				}
			case *ssa.Return:
				x := eval(in.Results[0], ne)
				if x != nil && x.Kind() == constant.Bool && !constant.BoolVal(x) {
					return
				}
				if e := eval(in.Results[1], ne); e != nil && e.Kind() == constant.String && constant.StringVal(e) == "set" {
					return
				}
				if onlyFails(b, nil, prev, func(v ssa.Value, at *ssa.BasicBlock) bool { return neverNil(v) }, 1) {
					return
				}
				bad = in
				return
			case *ssa.If:
				x := eval(in.Cond, ne)
				for si, s := range b.Succs {
					if x != nil && x.Kind() == constant.Bool && constant.BoolVal(x) != (si == 0) {
						continue
					}
					walk(s, b, 0, ne)
				}
				return
			}
			// a later comparison may have either result
			if b.Instrs[i] == ssa.Instruction(hc) {
				delete(ne, hc)
			}
		}
		for _, s := range b.Succs {
			walk(s, b, 0, ne)
		}
	}
	at := 0
	for i, in := range hc.Block().Instrs {
		if in == ssa.Instruction(hc) {
			at = i + 1
		}
	}
	walk(hc.Block(), nil, at, env{hc: constant.MakeBool(false)})
	var where ssa.Instruction = hc
	if bad != nil {
		where = bad
	}
	r.at("sums", where, "file that differs", bad == nil, "once a file differs "+fname(f)+" must give false")
}

func blockKey(b *ssa.BasicBlock, e map[ssa.Value]constant.Value) string {
	var ks []string
	for k, v := range e {
		ks = append(ks, k.Name()+"="+v.ExactString())
	}
	sort.Strings(ks)
	return b.String() + strings.Join(ks, ",")
}
