package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The facts engine: a forward must-analysis over SSA. A fact holds at a point when every path from
// the function entry to it established the fact, either by executing a matched instruction or by
// taking a branch that is only taken when a matched condition had a given outcome. Conditions are
// followed through negation, short-circuit phis, helper functions that return the outcome (whatever
// they are called), named results, captured variables and results carried in locals, so that the
// answer does not depend on how the test is written.

type Outcome int8

const (
	True Outcome = iota
	False
	Nil
	NonNil
)

func (o Outcome) flip() Outcome {
	switch o {
	case True:
		return False
	case False:
		return True
	case Nil:
		return NonNil
	}
	return Nil
}

func (o Outcome) String() string { return [...]string{"true", "false", "nil", "non-nil"}[o] }

// Elem is a fact, or (F empty) "parameter P had outcome O".
type Elem struct {
	F string
	P int
	O Outcome
}

// Set is what is known at a point: one of several conjunctions of facts holds, depending on the path
// taken. Conjunctions that another one is contained in are dropped. top (no path at all) is unreachable.
type Set struct {
	top bool
	cs  []conj // nil stands for a single empty conjunction
}

// conj is a sorted list of interned elements.
type conj []int32

var (
	elemIDs  = map[Elem]int32{}
	elemList []Elem
)

// opposite holds, for an element "!f" or "f" of which both exist, the other one.
var opposite = map[int32]int32{}

func elemID(e Elem) int32 {
	id, ok := elemIDs[e]
	if !ok {
		id = int32(len(elemList))
		elemIDs[e] = id
		elemList = append(elemList, e)
		if e.F != "" {
			o := Elem{F: "!" + e.F}
			if strings.HasPrefix(e.F, "!") {
				o = Elem{F: e.F[1:]}
			}
			if oid, ok := elemIDs[o]; ok {
				opposite[id] = oid
				opposite[oid] = id
			}
		}
	}
	return id
}

// contradictory: a fact and its negation are both established, so no execution takes these paths. Only facts
// about things that do not change during the paths at hand are given negations.
func (c conj) contradictory() bool {
	for _, x := range c {
		if o, ok := opposite[x]; ok && c.hasID(o) {
			return true
		}
	}
	return false
}

const maxConj = 64

func topSet() Set { return Set{top: true} }

func (s Set) conjs() []conj {
	if s.top {
		return nil
	}
	if len(s.cs) == 0 {
		return []conj{nil}
	}
	return s.cs
}

func (c conj) hasID(id int32) bool {
	i := sort.Search(len(c), func(i int) bool { return c[i] >= id })
	return i < len(c) && c[i] == id
}

func (c conj) union(d conj) conj {
	if len(d) == 0 {
		return c
	}
	if len(c) == 0 {
		return d
	}
	out := make(conj, 0, len(c)+len(d))
	i, j := 0, 0
	for i < len(c) && j < len(d) {
		switch {
		case c[i] == d[j]:
			out = append(out, c[i])
			i++
			j++
		case c[i] < d[j]:
			out = append(out, c[i])
			i++
		default:
			out = append(out, d[j])
			j++
		}
	}
	out = append(out, c[i:]...)
	out = append(out, d[j:]...)
	return out
}

func (c conj) meet(d conj) conj {
	var out conj
	for _, x := range c {
		if d.hasID(x) {
			out = append(out, x)
		}
	}
	return out
}

func (c conj) subset(d conj) bool {
	if len(c) > len(d) {
		return false
	}
	j := 0
	for _, x := range c {
		for j < len(d) && d[j] < x {
			j++
		}
		if j >= len(d) || d[j] != x {
			return false
		}
	}
	return true
}

func less(a, b conj) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// mkSet keeps the minimal conjunctions, in a fixed order.
func mkSet(cs []conj) Set {
	var feasible []conj
	for _, c := range cs {
		if !c.contradictory() {
			feasible = append(feasible, c)
		}
	}
	cs = feasible
	if len(cs) == 0 {
		return topSet()
	}
	if len(cs) > 1 {
		sort.Slice(cs, func(i, j int) bool {
			if len(cs[i]) != len(cs[j]) {
				return len(cs[i]) < len(cs[j])
			}
			return less(cs[i], cs[j])
		})
		var keep []conj
	next:
		for _, c := range cs {
			for _, k := range keep {
				if k.subset(c) {
					continue next
				}
			}
			keep = append(keep, c)
		}
		cs = keep
		if len(cs) > maxConj {
			m := cs[0]
			for _, c := range cs[1:] {
				m = m.meet(c)
			}
			cs = []conj{m}
		}
	}
	if len(cs) == 1 && len(cs[0]) == 0 {
		return Set{}
	}
	return Set{cs: cs}
}

// has reports that the fact holds in all conjunctions.
func (s Set) has(f string) bool {
	if s.top {
		return true
	}
	id, ok := elemIDs[Elem{F: f}]
	if !ok {
		return false
	}
	for _, c := range s.conjs() {
		if !c.hasID(id) {
			return false
		}
	}
	return true
}

// each splits a set into its conjunctions.
func (s Set) each() []Set {
	var out []Set
	for _, c := range s.conjs() {
		out = append(out, mkSet([]conj{c}))
	}
	return out
}

// elems lists the elements of a single conjunction.
func (s Set) elems() []Elem {
	var out []Elem
	if s.top || len(s.cs) == 0 {
		return nil
	}
	for _, id := range s.cs[0] {
		out = append(out, elemList[id])
	}
	return out
}

func (s Set) with(es ...Elem) Set {
	if s.top || len(es) == 0 {
		return s
	}
	var add conj
	for _, e := range es {
		add = add.union(conj{elemID(e)})
	}
	return s.union(Set{cs: []conj{add}})
}

// union: both hold.
func (s Set) union(t Set) Set {
	if s.top || t.top {
		return topSet()
	}
	if len(t.cs) == 0 {
		return s
	}
	if len(s.cs) == 0 {
		return t
	}
	var out []conj
	for _, c := range s.cs {
		for _, d := range t.cs {
			out = append(out, c.union(d))
		}
	}
	return mkSet(out)
}

// meet: one or the other holds.
func (s Set) meet(t Set) Set {
	if s.top {
		return t
	}
	if t.top {
		return s
	}
	var out []conj
	out = append(out, s.conjs()...)
	out = append(out, t.conjs()...)
	return mkSet(out)
}

func (s Set) eq(t Set) bool {
	a, b := s.conjs(), t.conjs()
	if s.top != t.top || len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) || !a[i].subset(b[i]) {
			return false
		}
	}
	return true
}

func (s Set) noParams() Set {
	if s.top {
		return s
	}
	var out []conj
	for _, c := range s.conjs() {
		var n conj
		for _, id := range c {
			if elemList[id].F != "" {
				n = append(n, id)
			}
		}
		out = append(out, n)
	}
	return mkSet(out)
}

func (s Set) String() string {
	if s.top {
		return "{unreachable}"
	}
	var alts []string
	for _, c := range s.conjs() {
		var out []string
		for _, id := range c {
			if elemList[id].F != "" {
				out = append(out, elemList[id].F)
			}
		}
		sort.Strings(out)
		alts = append(alts, "{"+strings.Join(out, ", ")+"}")
	}
	return strings.Join(alts, " or ")
}

func facts(fs ...string) []Elem {
	var out []Elem
	for _, f := range fs {
		out = append(out, Elem{F: f})
	}
	return out
}

type Facts struct {
	P *Prog
	// Result gives the facts known when result idx of a call has an outcome.
	Result func(c ssa.CallInstruction, idx int, o Outcome) []string
	// Cond gives the facts known when a value has an outcome.
	Cond func(v ssa.Value, o Outcome) []string
	// Exec gives the facts established by executing an instruction.
	Exec func(i ssa.Instruction) []string
	// Opaque stops the engine from looking into a callee.
	Opaque func(f *ssa.Function) bool

	st      map[*ssa.Function]*fstate
	ret     map[retKey]Set
	retBusy map[retKey]bool
	exit    map[*ssa.Function]Set
	exitB   map[*ssa.Function]bool
}

type retKey struct {
	f   *ssa.Function
	idx int
	o   Outcome
}

type fstate struct {
	in   map[*ssa.BasicBlock]map[string]*disj
	live map[string]map[*ssa.BasicBlock]bool // block -> key may be tested at or after it
	loop map[*ssa.BasicBlock]bool            // blocks that may run more than once
	done bool
}

func loopBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			for _, sc := range x.Succs {
				if sc == b {
					return true
				}
				if !seen[sc] {
					seen[sc] = true
					if walk(sc) {
						return true
					}
				}
			}
			return false
		}
		if walk(b) {
			out[b] = true
		}
	}
	return out
}

// disj is one group of paths to a block: the outcomes of tests that matter later, the value each
// relevant phi took, and the facts all paths of the group established.
type disj struct {
	known map[string]Outcome
	src   map[*ssa.Phi]ssa.Value
	facts Set
	key   string
}

const maxDisj = 96

func (d *disj) mkkey() {
	var ks []string
	for k, o := range d.known {
		ks = append(ks, k+"="+o.String())
	}
	for p, v := range d.src {
		ks = append(ks, "phi "+p.Name()+"<-"+v.Name()+"@"+blockName(v))
	}
	sort.Strings(ks)
	d.key = strings.Join(ks, ";")
}

func blockName(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	return ""
}

func (a *Facts) state(f *ssa.Function) *fstate {
	if a.st == nil {
		a.st = map[*ssa.Function]*fstate{}
		a.ret = map[retKey]Set{}
		a.retBusy = map[retKey]bool{}
		a.exit = map[*ssa.Function]Set{}
		a.exitB = map[*ssa.Function]bool{}
	}
	if s, ok := a.st[f]; ok {
		return s
	}
	s := &fstate{in: map[*ssa.BasicBlock]map[string]*disj{}}
	a.st[f] = s
	if len(f.Blocks) == 0 {
		s.done = true
		return s
	}
	s.live = liveTests(f)
	start := &disj{known: map[string]Outcome{}, src: map[*ssa.Phi]ssa.Value{}}
	s.in[f.Blocks[0]] = map[string]*disj{"": start}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		s.in[f.Recover] = map[string]*disj{"": start}
		work = append(work, f.Recover)
	}
	s.loop = loopBlocks(f)
	inWork := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	steps := 0
	again := false
	for steps < 20000 {
		if len(work) == 0 {
			// answers about locals and phis looked at states that may have changed since: go over all again
			if !again {
				break
			}
			again = false
			work = append(work, f.Blocks...)
		}
		steps++
		b := work[0]
		work = work[1:]
		inWork[b] = false
		// facts by group at the end of b
		for _, d := range ordered(s.in[b]) {
			end := a.throughD(s, d, b, nil)
			for i, sc := range b.Succs {
				nd := a.edgeD(s, d, end, b, sc, i)
				if nd == nil {
					continue
				}
				if s.join(sc, nd) {
					again = true
					if !inWork[sc] {
						inWork[sc] = true
						work = append(work, sc)
					}
				}
			}
		}
	}
	s.done = true
	return s
}

func ordered(m map[string]*disj) []*disj {
	var out []*disj
	for _, k := range sortedKeys(m) {
		out = append(out, m[k])
	}
	return out
}

// join adds a group to a block and reports a change.
func (s *fstate) join(b *ssa.BasicBlock, d *disj) bool {
	m := s.in[b]
	if m == nil {
		m = map[string]*disj{}
		s.in[b] = m
	}
	if one, ok := m["*"]; ok {
		// collapsed: everything merges into one group
		n := one.facts.meet(d.facts)
		if n.eq(one.facts) {
			return false
		}
		m["*"] = &disj{known: map[string]Outcome{}, src: map[*ssa.Phi]ssa.Value{}, facts: n, key: "*"}
		return true
	}
	if old, ok := m[d.key]; ok {
		n := old.facts.meet(d.facts)
		if n.eq(old.facts) {
			return false
		}
		m[d.key] = &disj{known: d.known, src: d.src, facts: n, key: d.key}
		return true
	}
	if len(m) >= maxDisj {
		f := d.facts
		for _, x := range m {
			f = f.meet(x.facts)
		}
		s.in[b] = map[string]*disj{"*": {known: map[string]Outcome{}, src: map[*ssa.Phi]ssa.Value{}, facts: f, key: "*"}}
		return true
	}
	m[d.key] = d
	return true
}

// edgeD takes a group along an edge; nil when the group can not take it.
func (a *Facts) edgeD(s *fstate, d *disj, end Set, p, b *ssa.BasicBlock, si int) *disj {
	nd := &disj{known: map[string]Outcome{}, src: map[*ssa.Phi]ssa.Value{}, facts: end}
	for k, v := range d.known {
		nd.known[k] = v
	}
	for k, v := range d.src {
		nd.src[k] = v
	}
	for _, i := range p.Instrs {
		if fa, ok := i.(*ssa.FieldAddr); ok {
			switch fa.X.(type) {
			case *ssa.Call, *ssa.Extract, *ssa.Phi:
				if k, flip := canonKey(fa.X); !flip {
					nd.known[k] = NonNil
				}
				if ph, ok := fa.X.(*ssa.Phi); ok {
					if sv, ok := nd.src[ph]; ok {
						if k, flip := canonKey(sv); !flip {
							nd.known[k] = NonNil
						}
					}
				}
			}
		}
	}
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		o := True
		if si == 1 {
			o = False
		}
		for _, vo := range directD(d, iff.Cond, o) {
			if impossible(d, vo.v, vo.o) {
				return nil
			}
			k, flip := canonKey(vo.v)
			oo := vo.o
			if flip {
				oo = oo.flip()
			}
			if prev, ok := nd.known[k]; ok && prev == oo.flip() {
				return nil
			}
			nd.known[k] = oo
		}
		if k, ok := firstTest(d, iff.Cond); ok {
			prev, known := nd.known[k]
			if known && prev == o {
				return nil // o true means not empty
			}
			nd.known[k] = o.flip()
		}
		im := a.impliesD(s, d, iff.Cond, o, p, map[visitKey]bool{})
		if im.top {
			return nil
		}
		nd.facts = nd.facts.union(im)
	}
	// phis of b take their value from p
	predIdx := -1
	for i, pp := range b.Preds {
		if pp == p {
			predIdx = i
			if si == 1 && p.Succs[0] == p.Succs[1] {
				continue
			}
			break
		}
	}
	type ps struct {
		phi *ssa.Phi
		v   ssa.Value
		k   string
		o   Outcome
		ok  bool
	}
	var phis []ps
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		e := ph.Edges[predIdx]
		if ep, ok := e.(*ssa.Phi); ok {
			if sv, ok := nd.src[ep]; ok {
				e = sv
			}
		}
		x := ps{phi: ph, v: e}
		for _, o := range []Outcome{True, False, Nil, NonNil} {
			if !outcomeFits(ph.Type(), o) {
				continue
			}
			if impossible(nd, e, o) {
				x.ok = true
				x.o = o.flip()
			}
		}
		phis = append(phis, x)
	}
	// values defined in b are about to be evaluated anew
	for _, i := range b.Instrs {
		v, ok := i.(ssa.Value)
		if !ok || !s.loop[b] {
			continue
		}
		delete(nd.known, v.Parent().Name()+"."+v.Name())
		for k := range nd.known {
			if strings.Contains(k, "."+v.Name()+")") || strings.Contains(k, "."+v.Name()+",") || strings.HasSuffix(k, "."+v.Name()) {
				delete(nd.known, k)
			}
		}
		for ph, sv := range nd.src {
			if sv == v || ssa.Value(ph) == v {
				delete(nd.src, ph)
			}
		}
	}
	for _, x := range phis {
		if x.ok {
			k, _ := canonKey(x.phi)
			nd.known[k] = x.o
		}
		if vi, ok := x.v.(ssa.Instruction); ok && vi.Block() == b {
			continue
		}
		nd.src[x.phi] = x.v
	}
	for k := range nd.known {
		if !s.live[k][b] {
			delete(nd.known, k)
		}
	}
	for ph := range nd.src {
		k, _ := canonKey(ph)
		if !s.live[k][b] {
			delete(nd.src, ph)
		}
	}
	nd.mkkey()
	return nd
}

func outcomeFits(t types.Type, o Outcome) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return o == True || o == False
	}
	return nillable(t) && (o == Nil || o == NonNil)
}

// impossible reports that v can not have outcome o within a group.
func impossible(d *disj, v ssa.Value, o Outcome) bool {
	v = settled(v)
	if o == Nil && neverNil(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constCant(x, o)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return impossible(d, x.X, o.flip())
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			l, okl := constOf(d, x.X)
			r, okr := constOf(d, x.Y)
			if okl && okr && l.Value != nil && r.Value != nil && l.Value.Kind() == r.Value.Kind() {
				if (constant.Compare(l.Value, token.EQL, r.Value) == (x.Op == token.EQL)) != (o == True) {
					return true
				}
			}
		}
	case *ssa.Phi:
		if sv, ok := d.src[x]; ok && sv != v {
			if impossible(d, sv, o) {
				return true
			}
		}
	}
	k, flip := canonKey(v)
	if flip {
		o = o.flip()
	}
	kn, ok := d.known[k]
	return ok && kn == o.flip()
}

// constOf is the constant a value is within a group.
func constOf(d *disj, v ssa.Value) (*ssa.Const, bool) {
	if ph, ok := v.(*ssa.Phi); ok {
		if sv, ok := d.src[ph]; ok {
			v = sv
		}
	}
	c, ok := v.(*ssa.Const)
	return c, ok
}

// directD is direct with phis resolved within a group.
func directD(d *disj, cond ssa.Value, o Outcome) []valOut {
	out := direct(cond, o)
	for i := 0; i < len(out) && i < 40; i++ {
		if ph, ok := out[i].v.(*ssa.Phi); ok {
			if sv, ok := d.src[ph]; ok && sv != out[i].v {
				out = append(out, direct(sv, out[i].o)...)
			}
		}
	}
	return out
}

// rangeTest recognises the test of an index loop over a slice, i < len(x) with i counting up from 0, giving the counter and x.
func rangeTest(cond ssa.Value) (*ssa.Phi, ssa.Value, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return nil, nil, false
	}
	c, ok := b.Y.(*ssa.Call)
	if !ok {
		return nil, nil, false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return nil, nil, false
	}
	switch x := b.X.(type) {
	case *ssa.BinOp:
		ph, ok := x.X.(*ssa.Phi)
		n, isC := constInt(x.Y)
		if ok && isC && n == 1 && x.Op == token.ADD {
			return ph, c.Call.Args[0], true
		}
	case *ssa.Phi:
		return x, c.Call.Args[0], true
	}
	return nil, nil, false
}

// firstTest: within the group the loop test is made for the first time, so it asks whether the slice is empty.
func firstTest(d *disj, cond ssa.Value) (string, bool) {
	ph, x, ok := rangeTest(cond)
	if !ok {
		return "", false
	}
	sv, ok := d.src[ph]
	if !ok {
		return "", false
	}
	n, isC := constInt(sv)
	_, direct := cond.(*ssa.BinOp).X.(*ssa.Phi)
	if !isC || (direct && n != 0) || (!direct && n != -1) {
		return "", false
	}
	return emptyKey(ph.Parent(), x), true
}

func emptyKey(f *ssa.Function, x ssa.Value) string {
	return f.Name() + ":empty len(" + canonVal(x, 1) + ")"
}

// canonKey names a value so that equal tests of unchanged values share a name; flip says the name is that of the negation.
func canonKey(v ssa.Value) (string, bool) {
	if b, ok := v.(*ssa.BinOp); ok {
		x, y := canonVal(b.X, 0), canonVal(b.Y, 0)
		fn := b.Parent().Name() + ":"
		// emptiness of a length
		if strings.HasPrefix(x, "len(") {
			if c, ok := constInt(b.Y); ok {
				switch {
				case b.Op == token.EQL && c == 0, b.Op == token.LSS && c == 1, b.Op == token.LEQ && c == 0:
					return fn + "empty " + x, false
				case b.Op == token.NEQ && c == 0, b.Op == token.GTR && c == 0, b.Op == token.GEQ && c == 1:
					return fn + "empty " + x, true
				}
			}
		}
		switch b.Op {
		case token.EQL, token.NEQ:
			if y < x {
				x, y = y, x
			}
			return fn + "eq(" + x + "," + y + ")", b.Op == token.NEQ
		case token.LSS:
			return fn + "lt(" + x + "," + y + ")", false
		case token.GEQ:
			return fn + "lt(" + x + "," + y + ")", true
		case token.GTR:
			return fn + "lt(" + y + "," + x + ")", false
		case token.LEQ:
			return fn + "lt(" + y + "," + x + ")", true
		}
	}
	return canonVal(v, 0), false
}

func canonVal(v ssa.Value, depth int) string {
	name := func() string {
		if in, ok := v.(ssa.Instruction); ok {
			return in.Parent().Name() + "." + v.Name()
		}
		if p := v.Parent(); p != nil {
			return p.Name() + "." + v.Name()
		}
		return v.Name()
	}
	if depth > 5 {
		return name()
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "c:" + x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && stableField(fa) {
				return "ld(" + canonVal(fa.X, depth+1) + "." + structField(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) + ")"
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && len(x.Call.Args) == 1 {
			return "len(" + canonVal(x.Call.Args[0], depth+1) + ")"
		}
	}
	return name()
}

// stableField: the function itself never stores to the field.
func stableField(fa *ssa.FieldAddr) bool {
	k := fieldKey(fa)
	for _, b := range fa.Parent().Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if f2, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(f2) == k {
					return false
				}
			}
		}
	}
	return true
}

// liveTests finds, for each test that is made more than once or feeds a phi or a result, the blocks it still matters in.
func liveTests(f *ssa.Function) map[string]map[*ssa.BasicBlock]bool {
	uses := map[string][]*ssa.BasicBlock{}
	ifs := map[string]int{}
	add := func(v ssa.Value, b *ssa.BasicBlock, n int) {
		for _, o := range []Outcome{True, False} {
			for _, vo := range direct(v, o) {
				if _, ok := vo.v.(*ssa.Const); ok {
					continue
				}
				k, _ := canonKey(vo.v)
				if o == True {
					ifs[k] += n
				}
				uses[k] = append(uses[k], b)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.If:
				n := 1
				if _, isPhi := x.Cond.(*ssa.Phi); isPhi {
					n = 2
				}
				// phis under a comparison matter too
				for _, vo := range direct(x.Cond, True) {
					if _, isPhi := vo.v.(*ssa.Phi); isPhi {
						n = 2
					}
				}
				add(x.Cond, b, n)
				if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
						ph, isPhi := pr[0].(*ssa.Phi)
						if _, isC := pr[1].(*ssa.Const); isPhi && isC && !outcomeFits(ph.Type(), Nil) {
							add(ph, b, 2)
						}
					}
				}
				if ph, sl, ok := rangeTest(x.Cond); ok {
					add(ph, b, 2)
					k := emptyKey(f, sl)
					ifs[k]++
					uses[k] = append(uses[k], b)
				}
			case *ssa.Phi:
				if !outcomeFits(x.Type(), True) && !outcomeFits(x.Type(), Nil) {
					continue
				}
				for ei, e := range x.Edges {
					add(e, b.Preds[ei], 1)
				}
				add(x, b, 1)
			case *ssa.Return:
				for _, r := range x.Results {
					if outcomeFits(r.Type(), True) || outcomeFits(r.Type(), Nil) {
						add(r, b, 1)
					}
				}
			case *ssa.FieldAddr:
				switch x.X.(type) {
				case *ssa.Call, *ssa.Extract, *ssa.Phi:
					add(x.X, b, 1)
				}
			case *ssa.Store:
				if outcomeFits(x.Val.Type(), True) || isErr(x.Val.Type()) {
					add(x.Val, b, 1)
				}
			case *ssa.Call:
				for _, r := range x.Call.Args {
					if outcomeFits(r.Type(), True) || isErr(r.Type()) {
						add(r, b, 1)
					} else if _, isPhi := r.(*ssa.Phi); isPhi {
						if _, isPtr := r.Type().Underlying().(*types.Pointer); isPtr {
							add(r, b, 1)
						}
					}
				}
			}
		}
	}
	out := map[string]map[*ssa.BasicBlock]bool{}
	for k, bs := range uses {
		if ifs[k] < 2 {
			continue
		}
		m := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if m[b] {
				return
			}
			m[b] = true
			for _, p := range b.Preds {
				walk(p)
			}
		}
		for _, b := range bs {
			walk(b)
		}
		out[k] = m
	}
	return out
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (a *Facts) throughD(s *fstate, d *disj, b *ssa.BasicBlock, upto ssa.Instruction) Set {
	cur := d.facts
	if cur.top {
		return cur
	}
	for _, i := range b.Instrs {
		if i == upto {
			break
		}
		cur = cur.union(a.execd(s, d, i))
	}
	return cur
}

// through is the facts at the end of a block, or just before an instruction of it, over all groups.
func (a *Facts) through(s *fstate, b *ssa.BasicBlock, upto ssa.Instruction) Set {
	r := topSet()
	for _, d := range ordered(s.in[b]) {
		r = r.meet(a.throughD(s, d, b, upto))
	}
	return r
}

func (a *Facts) execd(s *fstate, d *disj, i ssa.Instruction) Set {
	var out Set
	if a.Exec != nil {
		out = out.with(facts(a.Exec(i)...)...)
	}
	if fa, ok := i.(*ssa.FieldAddr); ok {
		// going through a pointer means it is not nil from here on
		switch fa.X.(type) {
		case *ssa.Call, *ssa.Extract, *ssa.Phi:
			if impossible(d, fa.X, NonNil) {
				return topSet()
			}
			out = out.union(a.impliesD(s, d, fa.X, NonNil, i.Block(), map[visitKey]bool{}))
		}
	}
	if c, ok := i.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil {
			g = unwrapBound(g)
			if a.P.InRepo[g] && !(a.Opaque != nil && a.Opaque(g)) {
				out = out.union(a.translate(s, d, a.exitFacts(g), c))
			}
		}
	}
	return out
}

// implies is impliesD over all groups that reach the end of a block.
func (a *Facts) implies(s *fstate, v ssa.Value, o Outcome, at *ssa.BasicBlock, seen map[visitKey]bool) Set {
	ds := ordered(s.in[at])
	r := topSet()
	for _, d := range ds {
		if impossible(d, v, o) {
			continue
		}
		r = r.meet(a.impliesD(s, d, v, o, at, seen))
	}
	return r
}

// exitFacts are the facts established whenever a function returns normally.
func (a *Facts) exitFacts(f *ssa.Function) Set {
	st := a.state(f)
	if r, ok := a.exit[f]; ok {
		return r
	}
	if a.exitB[f] || !st.done {
		return Set{}
	}
	a.exitB[f] = true
	defer delete(a.exitB, f)
	r := topSet()
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			r = r.meet(a.through(st, b, ret))
		}
	}
	// a function that never returns says nothing useful to its caller, except that it is not left
	a.exit[f] = r
	return r
}

// translate maps facts about callee parameters to facts about the arguments of a call.
func (a *Facts) translate(s *fstate, d *disj, set Set, c ssa.CallInstruction) Set {
	if set.top {
		return set
	}
	cc := c.Common()
	r := topSet()
	for _, one := range set.each() {
		out := one.noParams()
		for _, e := range one.elems() {
			if e.F != "" {
				continue
			}
			p := e.P
			if cc.IsInvoke() {
				p--
			}
			if p >= 0 && p < len(cc.Args) {
				if impossible(d, cc.Args[p], e.O) {
					out = topSet()
					break
				}
				out = out.union(a.impliesD(s, d, cc.Args[p], e.O, c.Block(), map[visitKey]bool{}))
			}
		}
		r = r.meet(out)
	}
	return r
}

type visitKey struct {
	v ssa.Value
	o Outcome
}

func errNeverNil(c *ssa.CallCommon) bool {
	switch cname(c) {
	case "fmt.Errorf", "errors.New", "errors.Join":
		return cname(c) != "errors.Join"
	}
	return false
}

// impliesD is the facts known to hold when v, as evaluated no later than the end of block at, has outcome o, in one group.
func (a *Facts) impliesD(s *fstate, d *disj, v ssa.Value, o Outcome, at *ssa.BasicBlock, seen map[visitKey]bool) Set {
	k := visitKey{v, o}
	if seen[k] {
		return topSet()
	}
	seen[k] = true
	defer delete(seen, k)

	var out Set
	if a.Cond != nil {
		out = out.with(facts(a.Cond(v, o)...)...)
	}

	switch x := v.(type) {
	case *ssa.Const:
		if constCant(x, o) {
			return topSet()
		}
		return out

	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				out = out.with(Elem{P: i, O: o})
			}
		}
		return out

	case *ssa.UnOp:
		if o == Nil && neverNil(v) {
			return topSet()
		}
		switch x.Op {
		case token.NOT:
			return out.union(a.impliesD(s, d, x.X, o.flip(), at, seen))
		case token.MUL:
			return out.union(a.load(s, x, o, seen))
		}
		return out

	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				c, ok := pr[1].(*ssa.Const)
				if !ok {
					continue
				}
				same := (x.Op == token.EQL) == (o == True)
				if isNone(c) && nillable(pr[0].Type()) {
					oo := Nil
					if !same {
						oo = NonNil
					}
					return out.union(a.impliesD(s, d, pr[0], oo, at, seen))
				}
				if c.Value != nil && c.Value.Kind() == constant.Bool {
					oo := False
					if constant.BoolVal(c.Value) == same {
						oo = True
					}
					return out.union(a.impliesD(s, d, pr[0], oo, at, seen))
				}
			}
		}
		return out

	case *ssa.Phi:
		if sv, ok := d.src[x]; ok {
			if impossible(d, sv, o) {
				return topSet()
			}
			return out.union(a.impliesD(s, d, sv, o, at, seen))
		}
		r := topSet()
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if contradicted(e, o, p, x.Block()) {
				continue
			}
			for _, pd := range ordered(s.in[p]) {
				if impossible(pd, e, o) {
					continue
				}
				si := 0
				if len(p.Succs) > 1 && p.Succs[1] == x.Block() {
					si = 1
				}
				end := a.throughD(s, pd, p, nil)
				ed := a.edgeD(s, pd, end, p, x.Block(), si)
				if ed == nil || ed.facts.top {
					continue
				}
				r = r.meet(ed.facts.union(a.impliesD(s, pd, e, o, p, seen)))
			}
		}
		return out.union(r)

	case *ssa.Call:
		return out.union(a.result(s, d, x, 0, o))

	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return out.union(a.result(s, d, c, x.Index, o))
		}
		return out

	case *ssa.MakeInterface:
		if o == Nil {
			return topSet()
		}
		return out

	case *ssa.ChangeInterface:
		return out.union(a.impliesD(s, d, x.X, o, at, seen))
	case *ssa.ChangeType:
		return out.union(a.impliesD(s, d, x.X, o, at, seen))
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function:
		if o == Nil {
			return topSet()
		}
		return out
	}
	return out
}

// constCant: a constant that can not have outcome o. The empty string counts as nil.
func constCant(c *ssa.Const, o Outcome) bool {
	if isNone(c) {
		return o == NonNil
	}
	if c.Value != nil && c.Value.Kind() == constant.Bool {
		return constant.BoolVal(c.Value) != (o == True)
	}
	return o == Nil
}

func isNone(c *ssa.Const) bool {
	return c.Value == nil || (c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "")
}

func nillable(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return true // the empty string is treated like nil
	}
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// result is the facts known when a call's idx'th result has outcome o.
func (a *Facts) result(s *fstate, d *disj, c *ssa.Call, idx int, o Outcome) Set {
	var out Set
	if a.Result != nil {
		out = out.with(facts(a.Result(c, idx, o)...)...)
	}
	if o == Nil && errNeverNil(&c.Call) {
		return topSet()
	}
	gs := a.P.callees(c)
	if len(gs) == 0 {
		return out
	}
	r := topSet()
	for _, g := range gs {
		if !a.P.InRepo[g] || (a.Opaque != nil && a.Opaque(g)) {
			return out
		}
		r = r.meet(a.translate(s, d, a.retImplies(g, idx, o), c))
	}
	return out.union(r)
}

// retImplies is the facts that hold whenever f returns with result idx having outcome o.
func (a *Facts) retImplies(f *ssa.Function, idx int, o Outcome) Set {
	st := a.state(f)
	k := retKey{f, idx, o}
	if r, ok := a.ret[k]; ok {
		return r
	}
	if a.retBusy[k] || !st.done {
		return Set{}
	}
	a.retBusy[k] = true
	defer delete(a.retBusy, k)
	r := topSet()
	for _, rs := range a.returns(f) {
		r = r.meet(a.retSite(st, rs, idx, o))
	}
	a.ret[k] = r
	return r
}

func (a *Facts) returns(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if b == f.Recover && !recovers(f) {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, ret)
		}
	}
	return out
}

func (a *Facts) retSite(st *fstate, ret *ssa.Return, idx int, o Outcome) Set {
	if idx >= len(ret.Results) {
		return Set{}
	}
	v := ret.Results[idx]
	if contradicted(v, o, ret.Block(), nil) {
		return topSet()
	}
	r := topSet()
	for _, d := range ordered(st.in[ret.Block()]) {
		if impossible(d, v, o) {
			continue
		}
		r = r.meet(a.throughD(st, d, ret.Block(), ret).union(a.impliesD(st, d, v, o, ret.Block(), map[visitKey]bool{})))
	}
	return r
}

// recovers reports whether a deferred function of f calls recover.
func recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			if bi, ok := d.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
				return true
			}
			g := d.Call.StaticCallee()
			if g == nil {
				continue
			}
			found := false
			calls(g, func(c ssa.CallInstruction) {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					found = true
				}
			})
			if found {
				return true
			}
		}
	}
	return false
}

// load follows a load from a local variable, captured or not, to the stores that may have set it.
func (a *Facts) load(s *fstate, ld *ssa.UnOp, o Outcome, seen map[visitKey]bool) Set {
	al, stores, ok := localStores(a.P, ld.X)
	if !ok {
		return Set{}
	}
	r := topSet()
	zeroPossible := true
	fn := ld.Parent()
	if fn == al.Parent() {
		// reaching definitions within the declaring function, when only it stores
		own := true
		for _, st := range stores {
			if st.Parent() != fn {
				own = false
			}
		}
		if own {
			rs, zero := reachingStores(stores, ld)
			stores = rs
			zeroPossible = zero
		}
	}
	for _, st := range stores {
		if contradicted(st.Val, o, st.Block(), nil) {
			continue
		}
		ss := s
		if st.Parent() != fn {
			ss = a.state(st.Parent())
			if !ss.done {
				return Set{}
			}
		}
		r = r.meet(a.through(ss, st.Block(), st).union(a.implies(ss, st.Val, o, st.Block(), seen)).noParamsIf(st.Parent() != fn))
	}
	if zeroPossible {
		if o == Nil || o == False {
			r = r.meet(Set{})
		}
	}
	return r
}

func (s Set) noParamsIf(c bool) Set {
	if c {
		return s.noParams()
	}
	return s
}

// localStores finds the allocation behind an address and all stores to it; ok is false when the
// address escapes in a way that other stores may exist.
func localStores(p *Prog, addr ssa.Value) (*ssa.Alloc, []*ssa.Store, bool) {
	switch x := addr.(type) {
	case *ssa.FreeVar:
		fn := x.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == x {
				idx = i
			}
		}
		mcs := p.bindings[fn]
		if len(mcs) != 1 || idx < 0 {
			return nil, nil, false
		}
		return localStores(p, mcs[0].Bindings[idx])
	case *ssa.Alloc:
		var stores []*ssa.Store
		ok := collectStores(x, &stores, 0)
		return x, stores, ok
	}
	return nil, nil, false
}

func collectStores(addr ssa.Value, out *[]*ssa.Store, depth int) bool {
	if depth > 6 || addr.Referrers() == nil {
		return false
	}
	for _, r := range *addr.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == addr {
				*out = append(*out, y)
			} else {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b == addr && !collectStores(fn.FreeVars[i], out, depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// reachingStores are the stores that may be the last one before a load; zero tells whether none may have run.
func reachingStores(stores []*ssa.Store, ld ssa.Instruction) ([]*ssa.Store, bool) {
	last := map[*ssa.BasicBlock]*ssa.Store{}
	isStore := map[ssa.Instruction]*ssa.Store{}
	for _, s := range stores {
		isStore[s] = s
	}
	b := ld.Block()
	var prev *ssa.Store
	for _, i := range b.Instrs {
		if i == ld {
			break
		}
		if s := isStore[i]; s != nil {
			prev = s
		}
	}
	if prev != nil {
		return []*ssa.Store{prev}, false
	}
	for _, blk := range b.Parent().Blocks {
		for _, i := range blk.Instrs {
			if s := isStore[i]; s != nil {
				last[blk] = s
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.Store
	got := map[*ssa.Store]bool{}
	zero := false
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if len(x.Preds) == 0 {
			zero = true
		}
		for _, p := range x.Preds {
			if seen[p] {
				continue
			}
			seen[p] = true
			if s := last[p]; s != nil {
				if !got[s] {
					got[s] = true
					out = append(out, s)
				}
				continue
			}
			walk(p)
		}
	}
	walk(b)
	return out, zero
}

type valOut struct {
	v ssa.Value
	o Outcome
}

// direct lists the values whose outcome is fixed by cond having outcome o.
func direct(cond ssa.Value, o Outcome) []valOut {
	out := []valOut{{cond, o}}
	switch x := cond.(type) {
	case *ssa.Call:
		// errors.Is and errors.As are only true of an error that is there
		if n := cname(&x.Call); o == True && (n == "errors.Is" || n == "errors.As") {
			out = append(out, direct(x.Call.Args[0], NonNil)...)
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			out = append(out, direct(x.X, o.flip())...)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				c, ok := pr[1].(*ssa.Const)
				if !ok {
					continue
				}
				same := (x.Op == token.EQL) == (o == True)
				if isNone(c) && nillable(pr[0].Type()) {
					oo := Nil
					if !same {
						oo = NonNil
					}
					out = append(out, direct(pr[0], oo)...)
				} else if c.Value != nil && c.Value.Kind() == constant.Bool {
					oo := False
					if constant.BoolVal(c.Value) == same {
						oo = True
					}
					out = append(out, direct(pr[0], oo)...)
				}
			}
		}
	}
	return out
}

// contradicted reports that v can not have outcome o at the end of block b (and on the edge to next, if given).
// settled is what a local variable that nothing else has access to was set to right before, when v loads one:
// what functions with deferred calls return is kept in such variables.
func settled(v ssa.Value) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == ssa.Value(al) {
				return v
			}
		default:
			return v
		}
	}
	var last ssa.Value
	for _, i := range ld.Block().Instrs {
		if i == ssa.Instruction(ld) {
			break
		}
		if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			last = st.Val
		}
	}
	if last == nil {
		return v
	}
	return last
}

func contradicted(v ssa.Value, o Outcome, b *ssa.BasicBlock, next *ssa.BasicBlock) bool {
	v = settled(v)
	if o == Nil && neverNil(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constCant(x, o)
	}
	check := func(cond ssa.Value, co Outcome) bool {
		for _, vo := range direct(cond, co) {
			if sameVal(vo.v, v) && vo.o == o.flip() {
				return true
			}
		}
		return false
	}
	if next != nil {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			co := True
			if b.Succs[1] == next {
				co = False
			}
			if check(iff.Cond, co) {
				return true
			}
		}
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for i, sc := range d.Succs {
			if len(sc.Preds) == 1 && sc.Dominates(b) {
				co := True
				if i == 1 {
					co = False
				}
				if check(iff.Cond, co) {
					return true
				}
			}
		}
	}
	return false
}

// sameVal: equal values, or loads of one local with no store in between being out of scope, the very same value.
func sameVal(a, b ssa.Value) bool { return a == b }

// At is the facts that hold just before an instruction, considering only its function.
func (a *Facts) At(i ssa.Instruction) Set {
	st := a.state(i.Parent())
	return a.through(st, i.Block(), i)
}

// Ctx is the facts engine applied to everything reachable from a set of entry functions.
type Ctx struct {
	A     *Facts
	Reach map[*ssa.Function]bool
	Order []*ssa.Function
	entry map[*ssa.Function]bool
	full  bool
}

// From computes, for all functions reachable from entries, the facts every call chain establishes before entering them.
func (a *Facts) From(entries ...*ssa.Function) *Ctx {
	c := &Ctx{A: a, Reach: map[*ssa.Function]bool{}, entry: map[*ssa.Function]bool{}}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f == nil || c.Reach[f] || !a.P.InRepo[f] || isMock(fnPkgPath(f)) {
			return
		}
		c.Reach[f] = true
		c.Order = append(c.Order, f)
		work = append(work, f)
	}
	for _, e := range entries {
		if e == nil {
			continue
		}
		c.entry[e] = true
		push(e)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if a.Opaque != nil && a.Opaque(f) && !c.entry[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, g := range a.P.callees(ci) {
						push(g)
					}
				}
				for _, op := range i.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						push(unwrapBound(g))
					}
				}
			}
		}
	}
	return c
}

// callers are the instructions in reach that call f or hand it out as a value.
func (c *Ctx) callers(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	// a closure only ever called where we can see it counts from its call sites
	if onlyCalled(f) {
		for _, s := range c.A.P.sites[f] {
			if c.Reach[s.Parent()] {
				out = append(out, s)
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	for _, s := range c.A.P.sites[f] {
		if c.Reach[s.Parent()] {
			if f.Parent() != nil && s.Common().StaticCallee() == nil {
				continue // the creation site covers it
			}
			out = append(out, s)
		}
	}
	for _, r := range c.A.P.refs[f] {
		if c.Reach[r.Parent()] {
			out = append(out, r)
		}
	}
	return out
}

// onlyCalled: an anonymous function whose value is only used as the callee of calls.
func onlyCalled(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	ok := true
	found := false
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			mc, is := i.(*ssa.MakeClosure)
			if is && mc.Fn == f {
				found = true
				for _, r := range *mc.Referrers() {
					c, isCall := r.(ssa.CallInstruction)
					if !isCall || c.Common().Value != ssa.Value(mc) {
						ok = false
					}
				}
			}
		}
	}
	return found && ok
}
