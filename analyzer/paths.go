package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Path search within a function, from a result that is known to have an outcome: which instructions can run
// afterwards. Branches on the tracked value, wherever it was copied to, are only followed the way they go.

type pathSearch struct {
	call *ssa.Call // the call tracked, its result idx has outcome out
	idx  int
	out  Outcome
	// also says which other values count as holding
	also func(v ssa.Value, holds func(v ssa.Value) bool) bool
	// visit is called for every instruction run; false ends the path there
	visit func(i ssa.Instruction, holds func(v ssa.Value) bool) bool
}

func (t *pathSearch) is(v ssa.Value) bool {
	if t.call == nil {
		return false
	}
	c, i := callOf(v)
	return c == t.call && i == t.idx
}

// boolOf: 1 when a value is known false, 2 when true.
func boolOf(v ssa.Value, known map[ssa.Value]int8) int8 {
	if b, ok := constBool(v); ok {
		if b {
			return 2
		}
		return 1
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		if k := boolOf(u.X, known); k != 0 {
			return 3 - k
		}
		return 0
	}
	return known[v]
}

func knownJoin(m map[ssa.Value]int8) string {
	h := map[ssa.Value]bool{}
	for k, v := range m {
		if v == 2 {
			h[k] = true
		}
	}
	g := map[ssa.Value]bool{}
	for k, v := range m {
		if v == 1 {
			g[k] = true
		}
	}
	return sortedJoin(h) + "/" + sortedJoin(g)
}

// from explores the paths that start after an instruction.
func (t *pathSearch) from(at ssa.Instruction) {
	seen := map[string]bool{}
	var walk func(b, prev *ssa.BasicBlock, from int, held map[ssa.Value]bool, known map[ssa.Value]int8)
	walk = func(b, prev *ssa.BasicBlock, from int, held map[ssa.Value]bool, known map[ssa.Value]int8) {
		h := map[ssa.Value]bool{}
		kn := map[ssa.Value]int8{}
		for k, v := range known {
			kn[k] = v
		}
		for k := range held {
			h[k] = true
		}
		var is func(v ssa.Value) bool
		is = func(v ssa.Value) bool { return h[v] || t.is(v) || (t.also != nil && t.also(v, is)) }
		if prev != nil {
			type upd struct {
				ph *ssa.Phi
				on bool
				k  int8 // 0 unknown, 1 false, 2 true
			}
			var us []upd
			for _, i := range b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range b.Preds {
					if pr == prev {
						us = append(us, upd{ph, is(ph.Edges[k]), boolOf(ph.Edges[k], known)})
					}
				}
			}
			for _, u := range us {
				if u.on {
					h[u.ph] = true
				} else {
					delete(h, u.ph)
				}
				if u.k != 0 {
					kn[u.ph] = u.k
				} else {
					delete(kn, u.ph)
				}
			}
		}
		if from == 0 {
			key := b.String() + "|" + sortedJoin(h) + "|" + knownJoin(kn)
			if seen[key] {
				return
			}
			seen[key] = true
		}
		for _, i := range b.Instrs[from:] {
			switch x := i.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if is(x.Val) {
						h[al] = true
					} else {
						delete(h, al)
					}
				}
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
					if h[al] {
						h[x] = true
					} else {
						delete(h, x)
					}
				}
			}
			if !t.visit(i, is) {
				return
			}
			if iff, ok := i.(*ssa.If); ok {
				if k := boolOf(iff.Cond, kn); k != 0 {
					walk(b.Succs[2-k], b, 0, h, kn)
					return
				}
			}
			if iff, ok := i.(*ssa.If); ok && t.call != nil {
				for _, o := range []Outcome{True, False} {
					v, vo := iff.Cond, o
					for {
						u, ok := v.(*ssa.UnOp)
						if !ok || u.Op != token.NOT {
							break
						}
						v, vo = u.X, vo.flip()
					}
					k := 0
					if o == False {
						k = 1
					}
					if is(v) && (t.out == True || t.out == False) {
						if vo == t.out {
							walk(b.Succs[k], b, 0, h, kn)
							return
						}
						continue
					}
					if x, y, eq, ok := equality(v, vo); ok {
						if c, isC := x.(*ssa.Const); isC && c.IsNil() {
							x, y = y, x
						}
						if c, isC := y.(*ssa.Const); isC && c.IsNil() && is(x) && (t.out == Nil || t.out == NonNil) {
							if eq == (t.out == Nil) {
								walk(b.Succs[k], b, 0, h, kn)
								return
							}
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, b, 0, h, kn)
		}
	}
	for k, i := range at.Block().Instrs {
		if i == at {
			walk(at.Block(), nil, k+1, map[ssa.Value]bool{}, map[ssa.Value]int8{})
			return
		}
	}
}

// alwaysRuns: every path through g that returns runs an instruction that via accepts, in g or in what it calls.
func (p *Prog) alwaysRuns(g *ssa.Function, via func(i ssa.Instruction) bool) bool {
	return p.alwaysRunsD(g, via, map[*ssa.Function]bool{})
}

func (p *Prog) alwaysRunsD(g *ssa.Function, via func(i ssa.Instruction) bool, busy map[*ssa.Function]bool) bool {
	if g == nil || busy[g] || len(g.Blocks) == 0 {
		return false
	}
	busy[g] = true
	defer delete(busy, g)
	ok := true
	run := func(i ssa.Instruction) bool {
		return p.runs(i, via, busy)
	}
	t := &pathSearch{visit: func(i ssa.Instruction, _ func(ssa.Value) bool) bool {
		if run(i) {
			return false
		}
		if _, is := i.(*ssa.Return); is {
			ok = false
		}
		return ok
	}}
	first := g.Blocks[0].Instrs[0]
	if run(first) {
		return true
	}
	if _, is := first.(*ssa.Return); is {
		return false
	}
	t.from(first)
	return ok
}

// runs: the instruction is accepted by via, or calls (or defers) a function that always runs one that is.
func (p *Prog) runs(i ssa.Instruction, via func(i ssa.Instruction) bool, busy map[*ssa.Function]bool) bool {
	if via(i) {
		return true
	}
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, isGo := i.(*ssa.Go); isGo {
		return false
	}
	gs := p.callees(c)
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		if !p.InRepo[g] || !p.alwaysRunsD(g, via, busy) {
			return false
		}
	}
	return true
}

// mustPass: on every path after the call's result idx had outcome out (any, for call nil), from at to an
// instruction end accepts, one that via accepts was run. It gives the end reached without.
func (p *Prog) mustPass(at ssa.Instruction, call *ssa.Call, idx int, out Outcome, via, end func(i ssa.Instruction) bool) (ok bool, missed ssa.Instruction) {
	ok = true
	t := &pathSearch{call: call, idx: idx, out: out, visit: func(i ssa.Instruction, _ func(ssa.Value) bool) bool {
		if p.runs(i, via, map[*ssa.Function]bool{}) {
			return false
		}
		if end(i) {
			ok = false
			missed = i
			return false
		}
		return true
	}}
	t.from(at)
	return ok, missed
}

func isReturn(i ssa.Instruction) bool { _, ok := i.(*ssa.Return); return ok }

// returnsErr accepts returns whose last result is an error that may be set.
func returnsErr(i ssa.Instruction) bool {
	r, ok := i.(*ssa.Return)
	if !ok || len(r.Results) == 0 {
		return false
	}
	v := r.Results[len(r.Results)-1]
	if !isErr(v.Type()) {
		return false
	}
	c, isC := v.(*ssa.Const)
	return !(isC && c.IsNil())
}

// reachable: b can run after a, in the same function.
func reachableAfter(a, b ssa.Instruction) bool {
	found := false
	t := &pathSearch{visit: func(i ssa.Instruction, _ func(ssa.Value) bool) bool {
		if i == b {
			found = true
		}
		return !found
	}}
	t.from(a)
	return found
}
