package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// memberTest recognises a call that tells whether a value is in a list: its result is true exactly when an
// element equals the value. It gives the list and the value in terms of the caller.
func (p *Prog) memberTest(c *ssa.Call) (list, elem ssa.Value, inside bool) {
	switch cname(&c.Call) {
	case "slices.Contains":
		return c.Call.Args[0], c.Call.Args[1], true
	}
	g := c.Call.StaticCallee()
	if g == nil || !p.InRepo[g] || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
		return nil, nil, false
	}
	l, e, ok := memberBody(p, g)
	if !ok {
		return nil, nil, false
	}
	up := func(v ssa.Value) ssa.Value {
		if pr, ok := v.(*ssa.Parameter); ok {
			for i, x := range g.Params {
				if x == pr && i < len(c.Call.Args) {
					return c.Call.Args[i]
				}
			}
		}
		return v
	}
	return up(l), up(e), true
}

// memberBody recognises functions that look for a value in a list.
func memberBody(p *Prog, g *ssa.Function) (list, elem ssa.Value, ok bool) {
	onlyReturns := func(from *ssa.BasicBlock, want bool) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, prev *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock, prev *ssa.BasicBlock) bool {
			if seen[b] {
				return true
			}
			seen[b] = true
			last := b.Instrs[len(b.Instrs)-1]
			if r, is := last.(*ssa.Return); is {
				v := r.Results[0]
				if ph, isPhi := v.(*ssa.Phi); isPhi && ph.Block() == b {
					for i, pr := range b.Preds {
						if pr == prev {
							v = ph.Edges[i]
						}
					}
				}
				x, isC := constBool(v)
				return isC && x == want
			}
			for _, s := range b.Succs {
				if !walk(s, b) {
					return false
				}
			}
			return len(b.Succs) > 0
		}
		return walk(from, nil)
	}
	// slices.Contains wrapped
	for _, b := range g.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && len(g.Blocks) == 1 {
			if c, isCall := r.Results[0].(*ssa.Call); isCall {
				return p.memberTest(c)
			}
		}
	}
	found := false
	for _, b := range g.Blocks {
		iff, is := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !is {
			continue
		}
		bo, is := iff.Cond.(*ssa.BinOp)
		if !is || (bo.Op != token.EQL && bo.Op != token.NEQ) {
			continue
		}
		for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			l := elementOf(pr[0])
			if l == nil {
				continue
			}
			hit := b.Succs[0]
			if bo.Op == token.NEQ {
				hit = b.Succs[1]
			}
			if onlyReturns(hit, true) {
				list, elem, found = l, pr[1], true
			}
		}
	}
	return list, elem, found
}

// elementOf gives the slice or map a value is an element of.
func elementOf(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return ia.X
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && al.Referrers() != nil {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					return elementOf(st.Val)
				}
			}
		}
	case *ssa.Index:
		return x.X
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return r.X
			}
		}
	}
	return nil
}

// failsOnError: whenever result idx of the call is a non-nil error, the function it is in returns a non-nil error.
func (p *Prog) failsOnError(a *Facts, c *ssa.Call, idx int) (bool, string) {
	f := c.Parent()
	res := f.Signature.Results()
	ei := -1
	for i := 0; i < res.Len(); i++ {
		if isErr(res.At(i).Type()) {
			ei = i
		}
	}
	if ei < 0 {
		return false, "the function has no error result"
	}
	_ = a
	st := &errTrack{call: c, idx: idx, ei: ei}
	return st.run()
}

// errTrack follows the branches on which an error is known to be set.
type errTrack struct {
	call *ssa.Call
	idx  int
	ei   int
}

func (t *errTrack) isErr(v ssa.Value) bool {
	c, i := callOf(v)
	return c == t.call && i == t.idx
}

// run explores the paths from the call on which the error is not nil.
func (t *errTrack) run() (bool, string) {
	type state struct {
		b    *ssa.BasicBlock
		prev *ssa.BasicBlock
	}
	f := t.call.Parent()
	// variables that hold the error, on the path explored
	seen := map[string]bool{}
	var bad string
	var walk func(b, prev *ssa.BasicBlock, from int, held map[ssa.Value]bool) bool
	walk = func(b, prev *ssa.BasicBlock, from int, held map[ssa.Value]bool) bool {
		h := map[ssa.Value]bool{}
		for k := range held {
			h[k] = true
		}
		if prev != nil {
			for _, i := range b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range b.Preds {
					if pr == prev {
						if held[ph.Edges[k]] || t.isErr(ph.Edges[k]) || neverNil(ph.Edges[k]) {
							h[ph] = true
						} else {
							delete(h, ph)
						}
					}
				}
			}
		}
		key := b.String() + "|" + sortedJoin(h)
		if from == 0 {
			if seen[key] {
				return true
			}
			seen[key] = true
		}
		for _, i := range b.Instrs[from:] {
			switch x := i.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if h[x.Val] || t.isErr(x.Val) || neverNil(x.Val) {
						h[al] = true
					} else {
						delete(h, al)
					}
				}
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
					if h[al] {
						h[x] = true
					} else {
						delete(h, x)
					}
				}
			case *ssa.Panic:
				return true
			case *ssa.Return:
				v := x.Results[t.ei]
				if h[v] || t.isErr(v) || neverNil(v) {
					return true
				}
				bad = "returns at a place where the error is not returned"
				return false
			case *ssa.If:
				if bo, ok := x.Cond.(*ssa.BinOp); ok {
					ev, cv := bo.X, bo.Y
					if c, isC := ev.(*ssa.Const); isC && c.IsNil() {
						ev, cv = cv, ev
					}
					if c, isC := cv.(*ssa.Const); isC && c.IsNil() && (h[ev] || t.isErr(ev)) {
						k := 0
						if bo.Op == token.EQL {
							k = 1
						}
						return walk(b.Succs[k], b, 0, h)
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !walk(s, b, 0, h) {
				return false
			}
		}
		return true
	}
	start := t.call.Block()
	at := 0
	for i, ins := range start.Instrs {
		if ins == ssa.Instruction(t.call) {
			at = i + 1
		}
	}
	_ = f
	ok := walk(start, nil, at, map[ssa.Value]bool{})
	return ok, bad
}

func sortedJoin(m map[ssa.Value]bool) string {
	n := map[string]bool{}
	for k := range m {
		n[k.Name()] = true
	}
	s := ""
	for _, k := range sortedKeys(n) {
		s += k + ","
	}
	return s
}
