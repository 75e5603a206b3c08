package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop that visits all elements of something.
type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	over ssa.Value // the slice, map or counted value visited
	full bool      // it starts at the first element, steps by one, and ends at the header when all were visited
}

// loopsOf finds the natural loops of a function, outermost first.
func loopsOf(f *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			var walk func(x *ssa.BasicBlock)
			walk = func(x *ssa.BasicBlock) {
				if l.body[x] {
					return
				}
				l.body[x] = true
				for _, p := range x.Preds {
					walk(p)
				}
			}
			walk(b)
		}
	}
	for _, l := range out {
		l.over, l.full = l.visits()
	}
	return out
}

// leftEarly: a block of the loop, other than its header, from which the loop is left.
func (l *loop) leftEarly() *ssa.BasicBlock {
	for _, b := range l.head.Parent().Blocks {
		if !l.body[b] || b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				return b
			}
		}
	}
	return nil
}

// untilError: the loop is left early for no other reason than an error.
func (l *loop) untilError() bool {
	for _, b := range l.head.Parent().Blocks {
		if !l.body[b] || b == l.head {
			continue
		}
		for si, s := range b.Succs {
			if l.body[s] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !(bo.Op == token.NEQ && si == 0 || bo.Op == token.EQL && si == 1) {
				return false
			}
			if !(isErr(bo.X.Type()) && isNilConst(bo.Y) || isErr(bo.Y.Type()) && isNilConst(bo.X)) {
				return false
			}
		}
	}
	return true
}

// visits tells what the loop goes over, and whether it is all of it.
func (l *loop) visits() (ssa.Value, bool) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || !l.body[l.head.Succs[0]] || l.body[l.head.Succs[1]] {
		return nil, false
	}
	// range over a map, string or channel
	if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 {
		if n, ok := ex.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return r.X, true
			}
		}
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	idx, bound := bo.X, bo.Y
	switch bo.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		idx, bound = bound, idx
	default:
		return nil, false
	}
	var over ssa.Value
	switch c := bound.(type) {
	case *ssa.Call:
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			over = c.Call.Args[0]
		} else {
			over = c
		}
	default:
		over = bound
	}
	if sl, ok := over.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
		return over, false
	}
	return over, l.counts(idx)
}

// counts: idx goes from 0 by one for every pass.
func (l *loop) counts(idx ssa.Value) bool {
	step := func(v ssa.Value, ph ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		n, isN := constInt(b.Y)
		if isN && n == 1 && b.X == ph {
			return true
		}
		n, isN = constInt(b.X)
		return isN && n == 1 && b.Y == ph
	}
	// range: the phi starts at -1 and the index tested is one more
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD {
		ph, ok := b.X.(*ssa.Phi)
		if !ok || ph.Block() != l.head || !step(b, ph) {
			return false
		}
		for i, e := range ph.Edges {
			if l.body[l.head.Preds[i]] {
				if e != ssa.Value(b) {
					return false
				}
				continue
			}
			if n, isN := constInt(e); !isN || n != -1 {
				return false
			}
		}
		return true
	}
	ph, ok := idx.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return false
	}
	for i, e := range ph.Edges {
		if l.body[l.head.Preds[i]] {
			if !step(e, ph) {
				return false
			}
			continue
		}
		if n, isN := constInt(e); !isN || n != 0 {
			return false
		}
	}
	return true
}

// onlyFails: every return that can be reached from b, without entering stop again, returns a result idx that has
// outcome o for certain.
func onlyFails(b *ssa.BasicBlock, stop *ssa.BasicBlock, prev *ssa.BasicBlock, fails func(v ssa.Value, at *ssa.BasicBlock) bool, idx int) bool {
	type edge struct{ b, prev *ssa.BasicBlock }
	seen := map[edge]bool{}
	var walk func(b, prev *ssa.BasicBlock) bool
	walk = func(b, prev *ssa.BasicBlock) bool {
		if b == stop || seen[edge{b, prev}] {
			return true
		}
		seen[edge{b, prev}] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			v := settled(r.Results[idx])
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
				for i, p := range b.Preds {
					if p == prev {
						v = ph.Edges[i]
					}
				}
			}
			return fails(v, prev)
		}
		for _, s := range b.Succs {
			if !walk(s, b) {
				return false
			}
		}
		return true
	}
	return walk(b, prev)
}

// everyPass records that a loop visits all of what it goes over, that pred holds at the end of every pass, and
// that it is only left early by failing: returning result idx with outcome bad.
func (r *Report) everyPass(rule string, a *Facts, l *loop, what, want string, pred func(Set) bool, idx int, bad Outcome) {
	first := l.head.Instrs[len(l.head.Instrs)-1]
	f := first.Parent()
	r.at(rule, first, what+": all are visited", l.full, "the loop must visit every element")
	st := a.state(f)
	ok := true
	var wit Set
	n := 0
	for _, p := range l.head.Preds {
		if !l.body[p] {
			continue
		}
		n++
		for _, d := range ordered(st.in[p]) {
			end := a.throughD(st, d, p, nil)
			si := 0
			for i, s := range p.Succs {
				if s == l.head {
					si = i
				}
			}
			nd := a.edgeD(st, d, end, p, l.head, si)
			if nd == nil || nd.facts.top {
				continue
			}
			for _, one := range nd.facts.noParams().each() {
				if !pred(one) {
					ok, wit = false, one
				}
			}
		}
	}
	det := "at the end of every pass: " + want
	if !ok {
		det = "a pass can end without " + want + "; established: " + wit.String()
	}
	r.at(rule, first, what+": each is checked", ok && n > 0, det)
	early := true
	var where ssa.Instruction = first
	for b := range l.body {
		if b == l.head {
			continue
		}
		for si, s := range b.Succs {
			if l.body[s] {
				continue
			}
			if !onlyFails(s, nil, b, func(v ssa.Value, at *ssa.BasicBlock) bool { return a.sureAt(v, bad, b, si, s) }, idx) {
				early = false
				where = b.Instrs[len(b.Instrs)-1]
			}
		}
	}
	r.at(rule, where, what+": none are skipped", early, "the loop may only be left early by failing")
}

// sureAt: v certainly has an outcome when it is returned after leaving b by edge si.
func (a *Facts) sureAt(v ssa.Value, o Outcome, b *ssa.BasicBlock, si int, to *ssa.BasicBlock) bool {
	v = settled(v)
	switch o {
	case NonNil:
		if neverNil(v) {
			return true
		}
	case False, True:
		if x, ok := constBool(v); ok {
			return x == (o == True)
		}
	}
	if contradicted(v, o.flip(), to, nil) {
		return true
	}
	st := a.state(b.Parent())
	for _, d := range ordered(st.in[b]) {
		nd := a.edgeD(st, d, a.throughD(st, d, b, nil), b, to, si)
		if nd == nil {
			continue
		}
		if !impossible(nd, v, o.flip()) {
			return false
		}
	}
	return true
}

// loopOver finds the loops of f that visit something match accepts.
func loopOver(f *ssa.Function, match func(v ssa.Value) bool) []*loop {
	var out []*loop
	for _, l := range loopsOf(f) {
		if l.over != nil && match(l.over) {
			out = append(out, l)
		}
	}
	return out
}

// isCounter: the value is the index of the loop.
func (l *loop) isCounter(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == l.head && types.Identical(x.Type().Underlying(), types.Typ[types.Int])
	case *ssa.BinOp:
		ph, ok := x.X.(*ssa.Phi)
		return ok && x.Op == token.ADD && ph.Block() == l.head
	}
	return false
}
