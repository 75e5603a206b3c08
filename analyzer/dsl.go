package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Matchers: the vocabulary the property rules are written in.

type resultRule struct {
	names []string
	idx   int
	out   Outcome
	fact  string
	ok    func(c ssa.CallInstruction) bool
}

type Spec struct {
	P       *Prog
	results []resultRule
	conds   []func(v ssa.Value, o Outcome) []string
	execs   []func(i ssa.Instruction) []string
	opaque  map[string]bool
}

func newSpec(p *Prog) *Spec { return &Spec{P: p, opaque: map[string]bool{}} }

// result: when result idx of a call to any of names has outcome out, fact holds.
func (s *Spec) result(fact string, idx int, out Outcome, ok func(c ssa.CallInstruction) bool, names ...string) *Spec {
	s.results = append(s.results, resultRule{names, idx, out, fact, ok})
	return s
}

func (s *Spec) cond(f func(v ssa.Value, o Outcome) []string) *Spec {
	s.conds = append(s.conds, f)
	return s
}

func (s *Spec) exec(f func(i ssa.Instruction) []string) *Spec {
	s.execs = append(s.execs, f)
	return s
}

// execCall: executing a call to any of names establishes fact.
func (s *Spec) execCall(fact string, ok func(c ssa.CallInstruction) bool, names ...string) *Spec {
	set := strset(names)
	return s.exec(func(i ssa.Instruction) []string {
		c, is := i.(*ssa.Call)
		if !is || !set[cname(&c.Call)] || (ok != nil && !ok(c)) {
			return nil
		}
		return []string{fact}
	})
}

// field: a boolean field being true (or false) establishes fact.
func (s *Spec) field(fact, key string, out Outcome) *Spec {
	return s.cond(func(v ssa.Value, o Outcome) []string {
		if o == out && loadedField(v) == key {
			return []string{fact}
		}
		return nil
	})
}

// nonEmpty: a string, slice or map field known not to be empty establishes fact.
func (s *Spec) nonEmpty(fact, key string) *Spec {
	return s.cond(func(v ssa.Value, o Outcome) []string {
		x, empty, ok := emptiness(v, o)
		if ok && !empty && loadedField(x) == key {
			return []string{fact}
		}
		return nil
	})
}

func (s *Spec) facts() *Facts {
	byName := map[string][]resultRule{}
	for _, r := range s.results {
		for _, n := range r.names {
			byName[n] = append(byName[n], r)
		}
	}
	return &Facts{
		P: s.P,
		Result: func(c ssa.CallInstruction, idx int, o Outcome) []string {
			var out []string
			for _, r := range byName[cname(c.Common())] {
				if r.idx == idx && r.out == o && (r.ok == nil || r.ok(c)) {
					out = append(out, r.fact)
				}
			}
			return out
		},
		Cond: func(v ssa.Value, o Outcome) []string {
			var out []string
			for _, f := range s.conds {
				out = append(out, f(v, o)...)
			}
			return out
		},
		Exec: func(i ssa.Instruction) []string {
			var out []string
			for _, f := range s.execs {
				out = append(out, f(i)...)
			}
			return out
		},
		Opaque: func(f *ssa.Function) bool { return s.opaque[fname(f)] },
	}
}

func strset(ss []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// loadedField is the "pkg.Type.field" a value is loaded from, or "".
func loadedField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldKey(fa)
			}
		}
	case *ssa.Field:
		return typeName(x.X.Type()) + "." + structField(x.X.Type(), x.Field)
	case *ssa.ChangeType:
		return loadedField(x.X)
	case *ssa.Convert:
		return loadedField(x.X)
	}
	return ""
}

// loadedBase is the value the loaded field belongs to.
func loadedBase(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	case *ssa.Field:
		return x.X
	case *ssa.ChangeType:
		return loadedBase(x.X)
	case *ssa.Convert:
		return loadedBase(x.X)
	}
	return nil
}

// equality normalises x == y and x != y under an outcome.
func equality(v ssa.Value, o Outcome) (x, y ssa.Value, eq, ok bool) {
	b, is := v.(*ssa.BinOp)
	if !is || (b.Op != token.EQL && b.Op != token.NEQ) || (o != True && o != False) {
		return nil, nil, false, false
	}
	return b.X, b.Y, (b.Op == token.EQL) == (o == True), true
}

// emptiness recognises tests of a string or length for being empty.
func emptiness(v ssa.Value, o Outcome) (x ssa.Value, empty, ok bool) {
	b, is := v.(*ssa.BinOp)
	if !is || (o != True && o != False) {
		return nil, false, false
	}
	for _, sw := range []bool{false, true} {
		l, r, op := b.X, b.Y, b.Op
		if sw {
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if s, isS := constString(r); isS && s == "" && (op == token.EQL || op == token.NEQ) {
			return l, (op == token.EQL) == (o == True), true
		}
		c, isC := l.(*ssa.Call)
		if !isC {
			continue
		}
		bi, isB := c.Call.Value.(*ssa.Builtin)
		if !isB || bi.Name() != "len" {
			continue
		}
		n, isN := constInt(r)
		if !isN {
			continue
		}
		arg := c.Call.Args[0]
		t := o == True
		switch {
		case op == token.EQL && n == 0, op == token.LSS && n == 1, op == token.LEQ && n == 0:
			return arg, t, true
		case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
			return arg, !t, true
		case op == token.EQL && n > 0 && t, op == token.GEQ && n > 0 && t, op == token.GTR && n >= 0 && t:
			return arg, false, true
		}
	}
	return nil, false, false
}

// callOf gives the call a value is a result of.
func callOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

func nameIn(n string, names ...string) bool {
	for _, x := range names {
		if x == n {
			return true
		}
	}
	return false
}

// Path is a witness that a requirement is not met: the call chain, innermost first.
type Path struct {
	Sites []ssa.Instruction
	Have  Set
}

func (pt *Path) describe(p *Prog) string {
	var parts []string
	for _, s := range pt.Sites {
		parts = append(parts, fname(s.Parent())+" ("+p.ipos(s)+")")
	}
	return "path: " + strings.Join(parts, " <- ") + "; established on it: " + pt.Have.String()
}

// Require checks that on every path from the entries to an instruction, pred holds of the facts the path
// established. Paths are grouped by the tests that matter, and call chains are followed one by one.
func (c *Ctx) Require(i ssa.Instruction, pred func(Set) bool) *Path {
	budget := 20000
	return c.require(i, Set{}, nil, pred, map[*ssa.Function]int{}, []ssa.Instruction{}, &budget)
}

// RequireWhen is Require for the paths on which a value that is used there has an outcome.
func (c *Ctx) RequireWhen(i ssa.Instruction, v ssa.Value, o Outcome, pred func(Set) bool) *Path {
	budget := 20000
	return c.require(i, Set{}, []pendParam{{v, o}}, pred, map[*ssa.Function]int{}, []ssa.Instruction{}, &budget)
}

// requireWhen records the obligation that pred holds on all paths to i on which v has the outcome.
func (r *Report) requireWhen(rule string, c *Ctx, i ssa.Instruction, v ssa.Value, o Outcome, what string, pred func(Set) bool, want string) {
	if w := c.RequireWhen(i, v, o, pred); w != nil {
		r.at(rule, i, what, false, "needs "+want+"; "+w.describe(r.P))
		return
	}
	r.at(rule, i, what, true, "holds on every path: "+want)
}

// RequireFull is Require for conditions that are not monotone: they are only put to complete paths, from an entry.
func (c *Ctx) RequireFull(i ssa.Instruction, pred func(Set) bool) *Path {
	cc := *c
	cc.full = true
	return cc.Require(i, pred)
}

// Some reports that on some complete path to i the facts are established.
func (c *Ctx) Some(i ssa.Instruction, fs ...string) bool {
	return c.RequireFull(i, func(s Set) bool { return !has(fs...)(s) }) != nil
}

func (c *Ctx) require(i ssa.Instruction, acc Set, pend []pendParam, pred func(Set) bool, depth map[*ssa.Function]int, trail []ssa.Instruction, budget *int) *Path {
	f := i.Parent()
	st := c.A.state(f)
	trail = append(append([]ssa.Instruction{}, trail...), i)
	*budget--
	if *budget < 0 {
		return &Path{trail, acc}
	}
	for _, d := range ordered(st.in[i.Block()]) {
		have := c.A.throughD(st, d, i.Block(), i)
		if have.top {
			continue
		}
		bad := false
		for _, pp := range pend {
			if impossible(d, pp.v, pp.o) || contradicted(pp.v, pp.o, i.Block(), nil) {
				bad = true
				break
			}
			im := c.A.impliesD(st, d, pp.v, pp.o, i.Block(), map[visitKey]bool{})
			if im.top {
				bad = true
				break
			}
			have = have.union(im)
		}
		if bad {
			continue
		}
		for _, one := range have.each() {
			all := one.noParams().union(acc)
			if all.top {
				continue
			}
			if !c.full && pred(all) {
				continue
			}
			sites := c.callers(f)
			if c.entry[f] || len(sites) == 0 {
				if all.top || (c.full && pred(all)) {
					continue
				}
				return &Path{trail, all}
			}
			if depth[f] >= 1 {
				continue // recursion: the outer visit covers it
			}
			depth[f]++
			for _, s := range sites {
				var np []pendParam
				if ci, isCall := s.(ssa.CallInstruction); isCall {
					for _, e := range one.elems() {
						if e.F != "" {
							continue
						}
						argv := ci.Common().Args
						p := e.P
						if ci.Common().IsInvoke() {
							p--
						}
						if p >= 0 && p < len(argv) {
							np = append(np, pendParam{argv[p], e.O})
						}
					}
				}
				if w := c.require(s, all, np, pred, depth, trail, budget); w != nil {
					depth[f]--
					return w
				}
			}
			depth[f]--
		}
	}
	return nil
}

type pendParam struct {
	v ssa.Value
	o Outcome
}

// instrs visits the instructions of all functions reached.
func (c *Ctx) instrs(visit func(i ssa.Instruction)) {
	for _, f := range c.Order {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				visit(i)
			}
		}
	}
}

func has(fs ...string) func(Set) bool {
	return func(s Set) bool {
		for _, f := range fs {
			if !s.has(f) {
				return false
			}
		}
		return true
	}
}

func anyOf(ps ...func(Set) bool) func(Set) bool {
	return func(s Set) bool {
		for _, p := range ps {
			if p(s) {
				return true
			}
		}
		return false
	}
}

func allOf(ps ...func(Set) bool) func(Set) bool {
	return func(s Set) bool {
		for _, p := range ps {
			if !p(s) {
				return false
			}
		}
		return true
	}
}

// require records the obligation that pred holds on all paths to i.
func (r *Report) require(rule string, c *Ctx, i ssa.Instruction, what string, pred func(Set) bool, want string) {
	w := c.Require(i, pred)
	if w == nil {
		r.at(rule, i, what, true, "holds on every path: "+want)
		return
	}
	r.at(rule, i, what, false, "needs "+want+"; "+w.describe(r.P))
}

// requireFull records the obligation that pred, which need not be monotone, holds on all complete paths to i.
func (r *Report) requireFull(rule string, c *Ctx, i ssa.Instruction, what string, pred func(Set) bool, want string) {
	w := c.RequireFull(i, pred)
	if w == nil {
		r.at(rule, i, what, true, "holds on every path: "+want)
		return
	}
	r.at(rule, i, what, false, "needs "+want+"; "+w.describe(r.P))
}

// returnsRequire records that whenever f returns with result idx having outcome o, pred holds.
func (r *Report) returnsRequire(rule string, a *Facts, f *ssa.Function, idx int, o Outcome, pred func(Set) bool, what, want string) int {
	st := a.state(f)
	n := 0
	r.seen(f)
	for _, ret := range a.returns(f) {
		if idx >= len(ret.Results) {
			continue
		}
		v := ret.Results[idx]
		if contradicted(v, o, ret.Block(), nil) {
			continue
		}
		ok := true
		var wit Set
		live := false
	disjuncts:
		for _, d := range ordered(st.in[ret.Block()]) {
			if impossible(d, v, o) {
				continue
			}
			have := a.throughD(st, d, ret.Block(), ret).union(a.impliesD(st, d, v, o, ret.Block(), map[visitKey]bool{}))
			if have.top {
				continue
			}
			live = true
			for _, one := range have.noParams().each() {
				if !pred(one) {
					ok = false
					wit = one
					break disjuncts
				}
			}
		}
		if !live {
			continue
		}
		n++
		det := "holds: " + want
		if !ok {
			det = "can return with result " + o.String() + " without " + want + "; established: " + wit.String()
		}
		r.at(rule, ret, what, ok, det)
	}
	return n
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Whole is the facts engine applied to the whole program: call chains end at functions nothing calls.
func (a *Facts) Whole() *Ctx {
	c := &Ctx{A: a, Reach: map[*ssa.Function]bool{}, entry: map[*ssa.Function]bool{}}
	for _, f := range a.P.Funcs {
		if isMock(fnPkgPath(f)) || c.Reach[f] {
			continue
		}
		c.Reach[f] = true
		c.Order = append(c.Order, f)
	}
	return c
}

// callsTo lists the calls of the repository that resolve to any of the names.
func (p *Prog) callsTo(names ...string) []ssa.CallInstruction {
	set := strset(names)
	var out []ssa.CallInstruction
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) || f.Synthetic != "" {
			continue
		}
		calls(f, func(c ssa.CallInstruction) {
			if set[cname(c.Common())] {
				out = append(out, c)
			}
		})
	}
	return out
}

// implsOf lists the repository's methods of a name whose receiver implements an interface given by name.
func (p *Prog) implsOf(iface, method string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Name() != method || f.Signature.Recv() == nil || isMock(fnPkgPath(f)) {
			continue
		}
		it := p.iface(iface)
		if it == nil {
			return nil
		}
		rt := f.Signature.Recv().Type()
		if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
			out = append(out, f)
		}
	}
	return out
}

// iface finds an interface type by its short name, for example "inter.SecurityProvider".
func (p *Prog) iface(name string) *types.Interface {
	for _, pk := range p.Pkgs {
		pre := short(pk.PkgPath) + "."
		if !strings.HasPrefix(name, pre) || strings.Contains(name[len(pre):], ".") {
			continue
		}
		if o := pk.Types.Scope().Lookup(name[len(pre):]); o != nil {
			if it, ok := o.Type().Underlying().(*types.Interface); ok {
				return it
			}
		}
	}
	return nil
}

// sameOrigins: two values come from the very same sources.
func sameOrigins(fl *Flow, a, b ssa.Value) bool {
	set := func(v ssa.Value) map[ssa.Value]bool {
		m := map[ssa.Value]bool{}
		for _, o := range fl.From(v) {
			if o.Label == "?nil" {
				continue
			}
			m[o.V] = true
		}
		return m
	}
	x, y := set(a), set(b)
	if len(x) == 0 || len(x) != len(y) {
		return false
	}
	for v := range x {
		if !y[v] {
			return false
		}
	}
	return true
}

// through makes a flow follow calls of the given names to argument i.
func derive(m map[string]int) func(c *ssa.Call) []ssa.Value {
	return func(c *ssa.Call) []ssa.Value {
		n := cname(&c.Call)
		if n == "builtin.append" {
			return c.Call.Args
		}
		if i, ok := m[n]; ok && i < len(c.Call.Args) {
			return c.Call.Args[i : i+1]
		}
		return nil
	}
}

// callSource labels results of calls with these method names, so that provenance stops there.
func callSource(names ...string) func(v ssa.Value) string {
	set := strset(names)
	return func(v ssa.Value) string {
		c, _ := callOf(v)
		if c != nil && set[mname(&c.Call)] {
			return "result:" + mname(&c.Call)
		}
		return ""
	}
}

func structHas(t types.Type, field string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return true
		}
	}
	return false
}
