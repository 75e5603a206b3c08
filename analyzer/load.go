package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/choria-io/go-choria"

// Prog is the type-checked, SSA-built view of the current /repo tree.
type Prog struct {
	Root   string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	ByPath map[string]*packages.Package // short path -> package
	SSA    *ssa.Program
	Funcs  []*ssa.Function // functions with bodies declared in the repo, anonymous ones included
	InRepo map[*ssa.Function]bool
	CG     *callgraph.Graph
	Ill    []string // packages that do not type check
	Broken []string // ... beyond the ones known not to

	sites     map[*ssa.Function][]ssa.CallInstruction // static and dynamic call sites of a function
	refs      map[*ssa.Function][]ssa.Instruction     // places where a function value is taken
	bindings  map[*ssa.Function][]*ssa.MakeClosure
	fieldSt   map[string][]*ssa.Store // stores by field key
	implCache map[*types.Func][]*ssa.Function
}

// packages that can not be type checked here as a dependency could not be fetched
func knownIll(p string) bool {
	return p == modPath || p == modPath+"/cmd" || strings.HasPrefix(p, modPath+"/providers/appbuilder")
}

func isMock(p string) bool {
	base := filepath.Base(p)
	return base == "imock" || strings.HasSuffix(base, "mock") || strings.Contains(p, "/mocks") || strings.HasSuffix(base, "mocks")
}

func load(root string) (*Prog, error) {
	cfg := &packages.Config{Dir: root, Mode: packages.LoadSyntax | packages.NeedModule, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Root: root, Pkgs: nil, ByPath: map[string]*packages.Package{}, InRepo: map[*ssa.Function]bool{}}
	var good []*packages.Package
	for _, pk := range pkgs {
		p.Fset = pk.Fset
		if len(pk.Errors) > 0 || pk.IllTyped {
			if knownIll(pk.PkgPath) {
				p.Ill = append(p.Ill, pk.PkgPath)
			} else {
				msg := "?"
				if len(pk.Errors) > 0 {
					msg = pk.Errors[0].Error()
				}
				p.Broken = append(p.Broken, pk.PkgPath+": "+msg)
			}
			continue
		}
		good = append(good, pk)
	}
	sort.Slice(good, func(i, j int) bool { return good[i].PkgPath < good[j].PkgPath })
	p.Pkgs = good
	for _, pk := range good {
		p.ByPath[short(pk.PkgPath)] = pk
	}
	prog, _ := ssautil.Packages(good, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	all := ssautil.AllFunctions(prog)
	goodPath := map[string]bool{}
	for _, pk := range good {
		goodPath[pk.PkgPath] = true
	}
	for f := range all {
		if len(f.Blocks) == 0 {
			continue
		}
		pk := fnPkgPath(f)
		if !goodPath[pk] {
			continue
		}
		p.InRepo[f] = true
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	p.CG = vta.CallGraph(all, cha.CallGraph(prog))
	p.index()
	return p, nil
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o != f {
		return fnPkgPath(o)
	}
	if obj := f.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	return ""
}

var shortener = strings.NewReplacer(
	modPath+"/", "",
	"github.com/choria-io/tokens", "tokens",
	"github.com/nats-io/nats-server/v2/server", "natsd",
	"github.com/nats-io/nats.go", "nats",
	"github.com/nats-io/jsm.go", "jsm",
	"github.com/sirupsen/logrus", "logrus",
)

func short(s string) string { return shortener.Replace(s) }

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Prog) ipos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	// nearest positioned instruction in the block
	b := i.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.pos(x.Pos())
			}
		}
		return p.pos(b.Parent().Pos())
	}
	return "?"
}

func (p *Prog) index() {
	p.sites = map[*ssa.Function][]ssa.CallInstruction{}
	p.refs = map[*ssa.Function][]ssa.Instruction{}
	p.bindings = map[*ssa.Function][]*ssa.MakeClosure{}
	p.fieldSt = map[string][]*ssa.Store{}
	p.errGlobals()
	seen := map[ssa.CallInstruction]map[*ssa.Function]bool{}
	add := func(c ssa.CallInstruction, f *ssa.Function) {
		if seen[c] == nil {
			seen[c] = map[*ssa.Function]bool{}
		}
		if seen[c][f] {
			return
		}
		seen[c][f] = true
		p.sites[f] = append(p.sites[f], c)
	}
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c) {
						add(c, g)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					p.bindings[fn] = append(p.bindings[fn], mc)
				}
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa)
						p.fieldSt[k] = append(p.fieldSt[k], st)
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					fn, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().Value == *op {
						continue
					}
					p.refs[fn] = append(p.refs[fn], ins)
					// bound method and thunk wrappers stand for the method they wrap
					if w := unwrapBound(fn); w != fn {
						p.refs[w] = append(p.refs[w], ins)
					}
				}
			}
		}
	}
}

// errGlobals finds the package variables of type error that are set once, when the package is initialised, to a new error.
func (p *Prog) errGlobals() {
	nonNilGlobals = map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	scan := func(f *ssa.Function, init bool) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || !isErr(deref(g.Type())) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == *op && init && !nonNilGlobals[g] {
							if c, ok := x.Val.(*ssa.Call); ok && errNeverNil(&c.Call) {
								nonNilGlobals[g] = true
								continue
							}
						}
					}
					bad[g] = true
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, pk := range p.SSA.AllPackages() {
		if ini := pk.Func("init"); ini != nil && strings.HasPrefix(pk.Pkg.Path(), modPath) {
			done[ini] = true
			scan(ini, true)
		}
	}
	for _, f := range p.Funcs {
		if !done[f] {
			scan(f, false)
		}
	}
	for g := range bad {
		delete(nonNilGlobals, g)
	}
}

var nonNilGlobals map[*ssa.Global]bool

// neverNil: the value can not be nil, whatever happened before.
func neverNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.Call:
		return errNeverNil(&x.Call)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return nonNilGlobals[g] || (isErr(x.Type()) && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath))
		}
	}
	return false
}

// unwrapBound gives the method behind a $bound or $thunk wrapper.
func unwrapBound(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || len(f.Blocks) == 0 {
		return f
	}
	if !strings.HasPrefix(f.Synthetic, "bound method wrapper") && !strings.HasPrefix(f.Synthetic, "thunk") && !strings.HasPrefix(f.Synthetic, "wrapper") {
		return f
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					return g
				}
			}
		}
	}
	return f
}

// callees resolves a call: statically, through the locals closures are held in, or through the VTA graph.
func (p *Prog) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{unwrapBound(f)}
	}
	if cc.IsInvoke() {
		return p.implementers(cc)
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	n := p.CG.Nodes[c.Parent()]
	if n == nil {
		return nil
	}
	for _, e := range n.Out {
		if e.Site == c && e.Callee != nil && e.Callee.Func != nil {
			out = append(out, unwrapBound(e.Callee.Func))
		}
	}
	return out
}

func (p *Prog) implementers(cc *ssa.CallCommon) []*ssa.Function {
	if p.implCache == nil {
		p.implCache = map[*types.Func][]*ssa.Function{}
	}
	if r, ok := p.implCache[cc.Method]; ok {
		return r
	}
	iface, _ := cc.Value.Type().Underlying().(*types.Interface)
	var out []*ssa.Function
	if iface != nil && iface.NumMethods() > 0 {
		for _, pk := range p.Pkgs {
			if isMock(pk.PkgPath) {
				continue
			}
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				named, ok := tn.Type().(*types.Named)
				if !ok || named.TypeParams().Len() > 0 {
					continue
				}
				if _, isI := named.Underlying().(*types.Interface); isI {
					continue
				}
				for _, t := range []types.Type{named, types.NewPointer(named)} {
					if !types.Implements(t, iface) {
						continue
					}
					sel := p.SSA.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
					if sel == nil {
						continue
					}
					if f := p.SSA.MethodValue(sel); f != nil {
						out = append(out, unwrapBound(f))
					}
					break
				}
			}
		}
	}
	p.implCache[cc.Method] = out
	return out
}

func fieldKey(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return typeName(t) + "." + structField(t, fa.Field)
}

func structField(t types.Type, i int) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "?"
	}
	return st.Field(i).Name()
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		n = n.Origin()
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return short(t.String())
}

// fname is the stable display name of a function.
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return fname(f.Parent()) + "$" + f.Name()[strings.LastIndex(f.Name(), "$")+1:]
	}
	return short(f.String())
}

// outer is the named function an anonymous one is declared in.
func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// fn finds a declared function or method by its short name, for example "tokens.ParseToken" or "(*agents.Manager).Dispatch".
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Synthetic == "" && fname(f) == name {
			return f
		}
	}
	return nil
}

// calleeObj is the declared function or interface method a call resolves to in the type checker.
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		f = unwrapBound(f)
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
		if og := f.Origin(); og != nil {
			if o, ok := og.Object().(*types.Func); ok {
				return o
			}
		}
	}
	return nil
}

// cname is the name a call resolves to, such as "tokens.ParseToken", "(*tokens.StandardClaims).Foo" or "(inter.Framework).Bar".
func cname(c *ssa.CallCommon) string {
	o := calleeObj(c)
	if o == nil {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return "builtin." + b.Name()
		}
		return ""
	}
	return short(o.FullName())
}

// mname is the bare method or function name.
func mname(c *ssa.CallCommon) string {
	o := calleeObj(c)
	if o == nil {
		return ""
	}
	return o.Name()
}

// recvArg is the receiver value of a method call.
func recvArg(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() {
		return c.Value
	}
	o := calleeObj(c)
	if o == nil {
		return nil
	}
	if o.Type().(*types.Signature).Recv() != nil && len(c.Args) > 0 {
		return c.Args[0]
	}
	return nil
}

// args are the arguments without the receiver.
func args(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return c.Args
	}
	o := calleeObj(c)
	if o != nil && o.Type().(*types.Signature).Recv() != nil && len(c.Args) > 0 {
		return c.Args[1:]
	}
	return c.Args
}

func calls(f *ssa.Function, visit func(c ssa.CallInstruction)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				visit(c)
			}
		}
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}
