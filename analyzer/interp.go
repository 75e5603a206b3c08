package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation along every path of a function: given what some parameters and fields hold, which effects can
// have happened at each return, and what is returned there. What is not known may be anything.

var (
	isSet = constant.MakeString("\x00set") // not nil
	isNil = constant.MakeString("\x00nil")
)

type interp struct {
	p      *Prog
	fields map[string]constant.Value
	// call says what a call does (effects, "" for none) and what it is known to give
	call func(c ssa.CallInstruction) (effect string, gives map[int]constant.Value)
	// value says what a value is assumed to be
	value func(v ssa.Value) constant.Value
	// inline says which functions are looked into
	inline func(f *ssa.Function) bool
	// stop ends a path on an edge
	stop func(b *ssa.BasicBlock, si int) bool
	// mark notes something about an edge among the effects, stops the path when it gives "stop"
	mark func(b *ssa.BasicBlock, si int, effects string) string
	// at is called for every instruction run
	at func(i ssa.Instruction, effects string)
	// symbols: results of calls that are not known are named for the call, see symCall
	symbols bool
	deep    int
	// terms: what is not known is named for where it comes from, see terms.go
	terms bool
	// record says which calls are noted among the effects
	record func(name string) bool
	// conds: outcomes of conditions are noted among the effects
	conds bool
	// past and now: what was done before this function was called, and in it so far
	past, now string
	// strict: errors that were found are returned
	strict bool
	// first: effects that have to follow others, by their beginnings
	first map[string]string
	// once: loops run at least once
	once bool
	// counts: loops that count are followed through
	counts bool
	// turns: loops over lists have at most this many turns, elements are told apart
	turns int64
	// compare: comparisons that are given are named
	result  bool // the first result is part of what is done
	compare bool
	// single: and, with once, no more than that
	single bool
	// ends: taking an edge ends the path as a return would
	ends func(b *ssa.BasicBlock, si int) bool
	// skip: fields that do not matter
	skip map[string]bool
	// name gives another name for a call
	name func(c ssa.CallInstruction) string
	// closure runs a function value given to a call, with these arguments
	closure func(c ssa.CallInstruction, args []constant.Value) (fn ssa.Value, params []constant.Value)
}

type ienv map[ssa.Value]constant.Value

type iexit struct {
	ret     *ssa.Return
	effects string
	vals    []constant.Value
	cells   ienv // terms: what named places hold
}

func (t *interp) eval(v ssa.Value, e ienv, prev *ssa.BasicBlock) constant.Value {
	if x, ok := e[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil && x.IsNil() {
			return isNil
		}
		return x.Value
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if y, ok := e[x.X]; ok {
				return y
			}
			if y, ok := t.fields[loadedField(x)]; ok {
				return y
			}
			if t.terms {
				return t.load(x, e, prev)
			}
		case token.NOT:
			if y := t.eval(x.X, e, prev); y != nil && y.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(y))
			} else if t.compare && isTerm(y) {
				return notTerm(y)
			}
		}
		return nil
	case *ssa.ChangeType:
		return t.eval(x.X, e, prev)
	case *ssa.Convert:
		if y := t.eval(x.X, e, prev); y != nil && (y.Kind() == constant.Int || t.terms) {
			from, isF := x.X.Type().Underlying().(*types.Basic)
			to, isT := x.Type().Underlying().(*types.Basic)
			if isTerm(y) && isF && isT && from.Info()&types.IsFloat != 0 && to.Info()&types.IsInteger != 0 {
				// what is less than one is dropped
				return mkTerm("int(" + showTerm(y) + ")")
			}
			return y
		}
		return nil
	case *ssa.BinOp:
		a, b := t.eval(x.X, e, prev), t.eval(x.Y, e, prev)
		if t.terms {
			if y := knownSet(x, a, b, e); y != nil {
				return y
			}
			if t.compare && isCompare(x.Op) && (a == nil || b == nil || isTerm(a) || isTerm(b)) {
				if y, done := termOp(x, a, b); done && y != nil {
					return y
				}
				n := condName(x, t, e, prev, true)
				if c, ok := strings.CutSuffix(n, " false"); ok {
					return notTerm(mkTerm(strings.TrimPrefix(c, "if ")))
				}
				return mkTerm(strings.TrimSuffix(strings.TrimPrefix(n, "if "), " true"))
			}
			if y, done := termOp(x, a, b); done {
				return y
			}
		}
		if a == nil || b == nil || a.Kind() != b.Kind() || symCall(a) != "" || symCall(b) != "" {
			return nil
		}
		if sameConst(a, isSet) && sameConst(b, isSet) {
			return nil
		}
		switch x.Op {
		case token.EQL, token.NEQ:
			return constant.MakeBool(constant.Compare(a, x.Op, b))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.Kind() == constant.Int || a.Kind() == constant.Float {
				return constant.MakeBool(constant.Compare(a, x.Op, b))
			}
		case token.ADD, token.SUB:
			// a counter up to a bound that is known
			if ph, ok := x.X.(*ssa.Phi); t.counts && (t.turns > 0 || ok && x.Op == token.ADD && ph.Comment != "rangeindex") && a.Kind() == constant.Int {
				if y := constant.BinaryOp(a, x.Op, b); constant.Compare(y, token.LSS, constant.MakeInt64(32)) {
					return y
				}
			}
		}
		return nil
	}
	if t.terms {
		if y := t.term(v, e, prev); y != nil {
			return y
		}
	}
	if neverNil(v) {
		return isSet
	}
	return nil
}

// run explores f; params are known by parameter.
func (t *interp) run(f *ssa.Function, params ienv) []iexit {
	if len(f.Blocks) == 0 {
		return nil
	}
	return t.from(f.Blocks[0], nil, 0, params, "")
}

// from explores from an instruction of a block, entered from prev.
func (t *interp) from(b, prev *ssa.BasicBlock, at int, e ienv, effects string) []iexit {
	seen := map[string]bool{}
	out := map[string]iexit{}
	var walk func(b, prev *ssa.BasicBlock, at int, e ienv, effects string)
	walk = func(b, prev *ssa.BasicBlock, at int, e ienv, effects string) {
		ne := ienv{}
		for k, v := range e {
			ne[k] = v
		}
		if prev != nil && at == 0 {
			idx := -1
			for i, q := range b.Preds {
				if q == prev {
					idx = i
				}
			}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if x := t.eval(ph.Edges[idx], e, prev); x != nil {
					ne[ph] = x
				} else {
					delete(ne, ph)
				}
			}
			for k := range ne {
				if !liveAt(k, b) {
					delete(ne, k)
				}
			}
			key := blockKey(b, ne) + "|" + effects
			if seen[key] {
				return
			}
			seen[key] = true
		}
		for i := at; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if t.at != nil {
				t.at(in, effects)
			}
			// values are made anew on every pass
			switch v := in.(type) {
			case *ssa.Phi:
			case *ssa.Extract:
				if _, ofCall := v.Tuple.(*ssa.Call); !ofCall {
					delete(ne, v)
				}
			case *ssa.Call:
				delete(ne, v)
				for _, ref := range *v.Referrers() {
					if x, ok := ref.(*ssa.Extract); ok {
						delete(ne, x)
					}
				}
			case *ssa.Alloc:
				delete(ne, v)
				if t.terms && isErr(deref(v.Type())) {
					// a result with a name holds nothing at first
					if _, stores, plain := localStores(t.p, v); plain && storedIn1(stores, v) {
						ne[v] = isNil
					}
				}
			case ssa.Value:
				delete(ne, v)
			}
			if v, ok := in.(ssa.Value); ok && t.value != nil {
				if y := t.value(v); y != nil {
					ne[v] = y
					continue
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				if t.terms {
					if n, _ := t.fieldAt(x.Addr, ne, prev); n != "" {
						effects = t.stored(x, ne, prev, effects)
						continue
					}
				}
				if y := t.eval(x.Val, ne, prev); y != nil {
					ne[x.Addr] = y
				} else {
					delete(ne, x.Addr)
				}
				if t.terms {
					effects = t.stored(x, ne, prev, effects)
				}
			case *ssa.UnOp, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Lookup, *ssa.Slice:
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.ARROW && t.terms && t.record != nil && t.record("recv") {
					effects = t.noted(effects, "recv("+t.show(u.X, ne, prev)+")")
				}
				// as it is now, the memory may change later
				v := in.(ssa.Value)
				if y := t.eval(v, ne, prev); y != nil {
					ne[v] = y
				}
			case *ssa.Range:
				if y := t.eval(x.X, ne, prev); t.terms && y != nil {
					ne[x] = y
				}
			case *ssa.Extract:
				_, asserted := x.Tuple.(*ssa.TypeAssert)
				_, looked := x.Tuple.(*ssa.Lookup)
				if (asserted || looked) && t.terms && x.Index == 0 {
					if y := t.eval(x, ne, prev); y != nil {
						ne[x] = y
					}
				}
				if c, ok := x.Tuple.(*ssa.Call); ok {
					if _, gives := t.effect(c); gives != nil {
						if y, ok := gives[x.Index]; ok && y != nil {
							ne[x] = y
							continue
						}
					}
					if _, known := ne[x]; !known && t.symbols {
						ne[x] = constant.MakeString("\x00call " + c.Name() + "#" + strconv.Itoa(x.Index))
					}
				}
			case ssa.CallInstruction:
				if g, isGo := in.(*ssa.Go); isGo {
					if t.terms && t.record != nil && t.record("go") {
						effects = t.noted(effects, "go "+t.goTerm(&g.Call, ne, prev))
					}
					continue
				}
				if _, isDefer := in.(*ssa.Defer); isDefer && t.terms {
					if _, lit := x.Common().Value.(*ssa.MakeClosure); !lit && !isBuiltin(x.Common()) {
						effects = t.called(x, ne, prev, effects)
					}
					continue
				}
				eff, gives := t.effect(x)
				if eff != "" {
					effects = addEffect(effects, eff)
				}
				call, _ := in.(*ssa.Call)
				if call != nil && gives != nil && gives[0] != nil && call.Call.Signature().Results().Len() == 1 {
					ne[call] = gives[0]
				}
				if eff != "" || gives != nil || call == nil {
					continue
				}
				t.now = effects
				exits := t.into(call, ne, prev)
				if exits == nil && t.terms {
					effects = t.called(call, ne, prev, effects)
					exits = t.intoClosure(call, ne, prev)
				}
				if exits != nil {
					for _, ex := range exits {
						if t.terms && handled(ex) {
							if n := len(ex.vals); t.strict && n > 0 && isErr(ex.ret.Results[n-1].Type()) && strings.Contains(ex.effects, "!err") {
								ex.effects = addEffect(ex.effects, "hide an error")
							}
							ex.effects = dropEffect(ex.effects, "!err")
						}
						we := ienv{}
						for k, v := range ne {
							we[k] = v
						}
						if len(ex.vals) == 1 && ex.vals[0] != nil {
							we[call] = ex.vals[0]
						}
						for _, ref := range *call.Referrers() {
							if exr, ok := ref.(*ssa.Extract); ok && exr.Index < len(ex.vals) && ex.vals[exr.Index] != nil {
								we[exr] = ex.vals[exr.Index]
							}
						}
						for k := range we {
							if _, is := k.(*cell); is && ex.cells != nil {
								delete(we, k)
							}
						}
						for k, v := range ex.cells {
							we[k] = v
						}
						eff := effects
						for _, one := range strings.Split(ex.effects, ",") {
							if one != "" {
								eff = addEffect(eff, one)
							}
						}
						t.resume(walk, b, i+1, we, eff, seen)
					}
					return
				}
			case *ssa.MapUpdate:
				if t.terms && t.record != nil && t.record("put") {
					n := t.show(x.Map, ne, prev) + " " + t.show(x.Key, ne, prev)
					if st, ok := x.Value.Type().Underlying().(*types.Struct); !ok || st.NumFields() > 0 {
						n += " " + t.whole(x.Value, ne, prev)
					}
					effects = t.noted(effects, "put("+n+")")
				}
			case *ssa.Send:
				if t.terms && t.record != nil && t.record("send") {
					effects = t.noted(effects, "send("+t.show(x.Chan, ne, prev)+" "+t.whole(x.X, ne, prev)+")")
				}
			case *ssa.Return:
				vals := make([]constant.Value, len(x.Results))
				var ks []string
				for k, r := range x.Results {
					vals[k] = t.eval(r, ne, prev)
					if vals[k] != nil {
						ks = append(ks, vals[k].ExactString())
					} else {
						ks = append(ks, "?")
					}
				}
				cs, ck := t.named(ne)
				out[blockName2(x)+effects+"|"+strings.Join(ks, ",")+ck] = iexit{x, effects, vals, cs}
				return
			case *ssa.If:
				c := t.eval(x.Cond, ne, prev)
				for si, s := range b.Succs {
					if c != nil && c.Kind() == constant.Bool && constant.BoolVal(c) != (si == 0) {
						continue
					}
					if t.stop != nil && t.stop(b, si) || t.turns > 0 && t.pastTurns(x.Cond, si == 0, ne, prev) {
						continue
					}
					eff, end := t.marked(b, si, effects)
					if end {
						continue
					}
					if t.conds && (c == nil || isTerm(c)) {
						n := condName(x.Cond, t, ne, prev, si == 0)
						if l, ok := strings.CutPrefix(n, "if empty("); ok && t.terms {
							if l, ok = strings.CutSuffix(l, ") true"); ok && ne[cellOf(addedMark+l)] != nil {
								continue
							}
						}
						eff = addEffect(eff, n)
					}
					if t.terms && t.record != nil {
						if op := t.chosen(x.Cond, si == 0, ne, prev); op != "" {
							eff = t.noted(eff, op)
						}
					}
					if t.ends != nil && t.ends(b, si) {
						c, key := t.carried(b, s, ne)
						out[fmt.Sprint("end", b.Index, si, eff, key)] = iexit{nil, eff, nil, c}
						continue
					}
					we := ienv{}
					for k, v := range ne {
						we[k] = v
					}
					we[x.Cond] = constant.MakeBool(si == 0)
					if t.terms {
						if t.assume(x.Cond, si == 0, we, prev) {
							eff = addEffect(eff, "!err")
						}
						if t.turns > 0 {
							t.learnLen(x.Cond, si == 0, we, prev)
						}
					}
					// what was compared is known from here on
					if bo, ok := x.Cond.(*ssa.BinOp); ok && ((bo.Op == token.EQL && si == 0) || (bo.Op == token.NEQ && si == 1)) {
						if y := t.eval(bo.Y, ne, prev); y != nil && !sameConst(y, isSet) {
							we[bo.X] = y
							if ld, ok := bo.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
								if _, _, plain := localStores(t.p, ld.X); plain {
									we[ld.X] = y
								}
							}
						}
					}
					walk(s, b, 0, we, eff)
				}
				return
			case *ssa.Panic:
				return
			}
		}
		for si, s := range b.Succs {
			if t.stop != nil && t.stop(b, si) {
				continue
			}
			eff, end := t.marked(b, si, effects)
			if end {
				continue
			}
			if t.ends != nil && t.ends(b, si) {
				c, key := t.carried(b, s, ne)
				out[fmt.Sprint("end", b.Index, si, eff, key)] = iexit{nil, eff, nil, c}
				continue
			}
			walk(s, b, 0, ne, eff)
		}
	}
	walk(b, prev, at, e, effects)
	var keys []string
	for k := range out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var res []iexit
	for _, k := range keys {
		res = append(res, out[k])
	}
	return res
}

func (t *interp) resume(walk func(b, prev *ssa.BasicBlock, at int, e ienv, effects string), b *ssa.BasicBlock, at int, e ienv, effects string, seen map[string]bool) {
	key := "@" + strconv.Itoa(at) + blockKey(b, e) + "|" + effects
	if seen[key] {
		return
	}
	seen[key] = true
	walk(b, nil, at, e, effects)
}

func (t *interp) marked(b *ssa.BasicBlock, si int, effects string) (string, bool) {
	if t.once {
		var end bool
		if effects, end = runsOnce(b, si, effects, t.single); end {
			return effects, true
		}
	}
	if t.mark == nil {
		return effects, false
	}
	switch m := t.mark(b, si, effects); m {
	case "":
		return effects, false
	case "stop":
		return effects, true
	default:
		return addEffect(effects, m), false
	}
}

func (t *interp) effect(c ssa.CallInstruction) (string, map[int]constant.Value) {
	if t.call == nil {
		return "", nil
	}
	return t.call(c)
}

// into explores what is called, nil when it is not looked into.
func (t *interp) into(c *ssa.Call, e ienv, prev *ssa.BasicBlock) []iexit {
	if t.inline == nil || t.deep > 6 {
		return nil
	}
	fs := t.p.callees(c)
	if t.terms && c.Call.IsInvoke() {
		if g := t.madeHere(&c.Call, e, prev); g != nil {
			fs = []*ssa.Function{g}
		}
	}
	if len(fs) != 1 || !t.inline(fs[0]) || len(fs[0].Blocks) == 0 {
		return nil
	}
	g := fs[0]
	pe := ienv{}
	if mc := closureOf(c.Call.Value); mc != nil && t.terms {
		for i, b := range mc.Bindings {
			if y, ok := e[b]; ok {
				pe[g.FreeVars[i]] = y
			}
		}
	}
	av := c.Call.Args
	if c.Call.IsInvoke() {
		av = append([]ssa.Value{c.Call.Value}, av...)
	}
	for k, pr := range g.Params {
		if k < len(av) {
			if y := t.eval(av[k], e, prev); y != nil {
				pe[pr] = y
			}
		}
	}
	if t.terms {
		for k, v := range e {
			if _, is := k.(*cell); is {
				pe[k] = v
			}
		}
	}
	sub := *t
	sub.past = t.past + "," + t.now
	sub.deep++
	sub.stop = nil
	sub.mark = nil
	sub.ends = nil
	return sub.run(g, pe)
}

// storedIn1: the function with the variable is the only one that sets it.
func storedIn1(stores []*ssa.Store, a *ssa.Alloc) bool {
	for _, s := range stores {
		if s.Parent() != a.Parent() {
			return false
		}
	}
	return true
}

func addEffect(have, one string) string {
	m := map[string]bool{one: true}
	for _, x := range strings.Split(have, ",") {
		if x != "" {
			m[x] = true
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func blockName2(i ssa.Instruction) string { return i.Block().String() + "#" }

// symCall is the call that gave a value that is not known further.
func symCall(v constant.Value) string {
	if v == nil || v.Kind() != constant.String {
		return ""
	}
	if k, ok := strings.CutPrefix(constant.StringVal(v), "\x00call "); ok {
		c, _, _ := strings.Cut(k, "#")
		return c
	}
	return ""
}

func sameConst(a, b constant.Value) bool {
	return a != nil && b != nil && a.Kind() == b.Kind() && constant.Compare(a, token.EQL, b)
}

var reachOf = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// reachFrom: the blocks that can run once b does, itself included.
func reachFrom(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if m, ok := reachOf[b]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range x.Succs {
			if !m[s] {
				m[s] = true
				work = append(work, s)
			}
		}
	}
	reachOf[b] = m
	return m
}

// liveAt: what is known of a value can matter from b on.
func liveAt(v ssa.Value, b *ssa.BasicBlock) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	after := reachFrom(b)
	for _, i := range *refs {
		if i.Parent() != b.Parent() {
			return true
		}
		switch x := i.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Store:
			if x.Addr == v && x.Val != v {
				continue
			}
		case *ssa.Phi:
			// used where control comes from
			for k, e := range x.Edges {
				if e == v && after[x.Block().Preds[k]] {
					return true
				}
			}
			continue
		case *ssa.MakeClosure:
			// used where the function is
			if x != v && liveAt(x, b) {
				return true
			}
		}
		if after[i.Block()] {
			return true
		}
	}
	return false
}

func isBuiltin(cc *ssa.CallCommon) bool {
	_, ok := cc.Value.(*ssa.Builtin)
	return ok
}

// carried: what is known when a pass of a loop ends, with what the next one starts with.
func (t *interp) carried(b, s *ssa.BasicBlock, e ienv) (ienv, string) {
	out, key := ienv{}, ""
	for k, v := range e {
		if _, isPhi := k.(*ssa.Phi); !isPhi {
			out[k] = v
		}
	}
	for _, i := range s.Instrs {
		ph, is := i.(*ssa.Phi)
		if !is {
			break
		}
		for k, pr := range s.Preds {
			if pr == b {
				if v := t.eval(ph.Edges[k], e, nil); v != nil {
					out[ph] = v
					key += fmt.Sprintf(" %s=%s", ph.Name(), v.ExactString())
				}
			}
		}
	}
	return out, key
}
