package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pointers in decoded data: a document decides whether they are nil.

type decodeSite struct {
	call *ssa.Call
	typ  types.Type
	has  map[string]bool // the fields that may be nil after it
}

func isDecode(c *ssa.CallCommon) (into ssa.Value, data ssa.Value) {
	n := cname(c)
	switch {
	case n == "encoding/json.Unmarshal" || (strings.HasSuffix(n, ".Unmarshal") && strings.Contains(n, "yaml")):
		if len(c.Args) >= 2 {
			return c.Args[1], c.Args[0]
		}
	case n == "(*encoding/json.Decoder).Decode":
		return c.Args[1], c.Args[0]
	}
	return nil, nil
}

// pointerFields lists the fields that decoding into a type may leave nil: pointers to structures, and with [] the
// elements of lists and maps of those.
func pointerFields(t types.Type) map[string]bool {
	out := map[string]bool{}
	seen := map[string]bool{}
	isPtr := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		_, ok = pt.Elem().Underlying().(*types.Struct)
		return ok
	}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch x := t.(type) {
		case *types.Pointer:
			add(x.Elem())
			return
		case *types.Slice:
			add(x.Elem())
			return
		case *types.Map:
			add(x.Elem())
			return
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		n := typeName(t)
		if seen[n] || !strings.Contains(t.String(), modPath) {
			return
		}
		seen[n] = true
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := s.Tag(i)
			if (!f.Exported() && !f.Embedded()) || strings.Contains(tag, `json:"-"`) {
				continue
			}
			switch x := f.Type().Underlying().(type) {
			case *types.Slice:
				if isPtr(x.Elem()) {
					out[n+"."+f.Name()+"[]"] = true
				}
			case *types.Map:
				if isPtr(x.Elem()) {
					out[n+"."+f.Name()+"[]"] = true
				}
			default:
				if isPtr(f.Type()) {
					out[n+"."+f.Name()] = true
				}
			}
			add(f.Type())
		}
	}
	add(t)
	return out
}

// decodedFrom names the field a pointer was loaded from, with [] when it is an element of it.
func decodedFrom(v ssa.Value) string {
	if k := loadedField(v); k != "" {
		return k
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if k := loadedField(ia.X); k != "" {
				return k + "[]"
			}
		}
	case *ssa.Lookup:
		if k := loadedField(x.X); k != "" && !x.CommaOk {
			return k + "[]"
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				if k := loadedField(r.X); k != "" {
					return k + "[]"
				}
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			if k := loadedField(lk.X); k != "" {
				return k + "[]"
			}
		}
	}
	return ""
}

// derefs lists the values an instruction fails on when they are nil.
func derefs(p *Prog, i ssa.Instruction) []ssa.Value {
	switch x := i.(type) {
	case *ssa.FieldAddr:
		return []ssa.Value{x.X}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return []ssa.Value{x.X}
		}
	case *ssa.Call:
		// a method of it
		g := x.Call.StaticCallee()
		if g != nil && g.Signature.Recv() != nil && p.InRepo[g] && len(x.Call.Args) > 0 && !nilSafe(g) {
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				return []ssa.Value{x.Call.Args[0]}
			}
		}
	}
	return nil
}

// nilSafe: the method looks at its receiver being nil.
func nilSafe(g *ssa.Function) bool {
	if len(g.Params) == 0 {
		return true
	}
	for _, ref := range *g.Params[0].Referrers() {
		if b, ok := ref.(*ssa.BinOp); ok && (isNilConst(b.X) || isNilConst(b.Y)) {
			return true
		}
	}
	return false
}

func nilRule(p *Prog, r *Report) {
	const rule = "nil"
	var sites []*decodeSite
	every := map[string]bool{}
	for _, f := range p.Funcs {
		if outsideRuntime(f) {
			continue
		}
		calls(f, func(ci ssa.CallInstruction) {
			c, ok := ci.(*ssa.Call)
			if !ok {
				return
			}
			into, data := isDecode(&c.Call)
			mi, ok := into.(*ssa.MakeInterface)
			if !ok || builtIn(p, data) {
				return
			}
			d := &decodeSite{call: c, typ: mi.X.Type(), has: pointerFields(mi.X.Type())}
			if len(d.has) == 0 {
				return
			}
			for k := range d.has {
				every[k] = true
			}
			sites = append(sites, d)
		})
	}
	r.need(rule, "places that decode into types with pointers", len(sites), 8)

	replacedRule(p, r)

	l := newLens(p)
	relied := map[string][]ssa.Instruction{}
	guarded := 0
	for _, f := range p.Funcs {
		if outsideRuntime(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, v := range derefs(p, i) {
					k := decodedFrom(v)
					if !every[k] {
						continue
					}
					if l.min(v, i) > 0 {
						guarded++
						continue
					}
					relied[k] = append(relied[k], i)
				}
			}
		}
	}
	r.note("%d uses of pointers in decoded data are guarded where they are; fields relied on elsewhere: %s", guarded, strings.Join(sortedKeys(relied), ", "))

	for _, d := range sites {
		for _, k := range sortedKeys(d.has) {
			uses := relied[k]
			if staysIn(d, k) {
				uses = nil
				for _, u := range relied[k] {
					if outer(u.Parent()) == outer(d.call.Parent()) {
						uses = append(uses, u)
					}
				}
			}
			if len(uses) == 0 {
				continue
			}
			established(p, r, rule, l, d, k, uses[0])
		}
	}
}

// staysIn: what is decoded is not given to other functions as something that still has the field.
func staysIn(d *decodeSite, k string) bool {
	into, _ := isDecode(&d.call.Call)
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return true
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Slice, *ssa.Phi:
				if !walk(x.(ssa.Value)) {
					return false
				}
			case *ssa.Extract:
				if !walk(x) {
					return false
				}
			case *ssa.UnOp:
				if !walk(x) {
					return false
				}
			case *ssa.BinOp, *ssa.DebugRef:
			case *ssa.Call:
				_, builtin := x.Call.Value.(*ssa.Builtin)
				if !builtin && pointerFields(v.Type())[k] {
					return false
				}
				if !walk(x) {
					return false
				}
			case *ssa.MakeInterface:
				for _, u := range *x.Referrers() {
					if u != ssa.Instruction(d.call) && pointerFields(v.Type())[k] {
						return false
					}
				}
			case *ssa.Store:
				if x.Val == v && pointerFields(v.Type())[k] {
					if a, ok := x.Addr.(*ssa.Alloc); !ok || !walk(a) {
						return false
					}
				}
			default:
				if pointerFields(v.Type())[k] {
					return false
				}
			}
		}
		return true
	}
	mi, ok := into.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	if _, ok := mi.X.(*ssa.Alloc); !ok {
		return false
	}
	return walk(mi.X)
}

// builtIn: data that is part of the program.
func builtIn(p *Prog, data ssa.Value) bool {
	u, ok := data.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && len(p.globalStores(g)) == 0
}

// established: the function that decodes only succeeds when the field is not nil.
func established(p *Prog, r *Report, rule string, l *lens, d *decodeSite, k string, use ssa.Instruction) {
	f := d.call.Parent()
	i, bad := failIdx(f)
	what := k + " is not nil after decoding"
	why := fmt.Sprintf("%s relies on it at %s", fname(use.Parent()), p.ipos(use))
	if i < 0 {
		r.at(rule, d.call, what, false, "the function that decodes cannot fail, and "+why)
		return
	}
	elem := strings.HasSuffix(k, "[]")
	field := strings.TrimSuffix(k, "[]")
	s := newSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		b, ok := v.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || !(isNilConst(b.Y) || isNilConst(b.X)) {
			return nil
		}
		x := b.X
		if isNilConst(x) {
			x = b.Y
		}
		if decodedFrom(x) == k && (b.Op == token.NEQ) == (o == True) {
			return []string{"set"}
		}
		return nil
	})
	s.exec(func(i ssa.Instruction) []string {
		st, ok := i.(*ssa.Store)
		if !ok || elem {
			return nil
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == k && l.min(st.Val, st) > 0 {
			return []string{"set"}
		}
		return nil
	})
	a := s.facts()
	if !elem {
		r.returnsRequire(rule, a, f, i, bad.flip(), has("set"), what, "a test that it is not nil; "+why)
		return
	}
	// all elements are tested
	var loops []*loop
	for _, lp := range p.findLoops(f, func(lp *loop) bool { return loadedField(lp.over) == field }) {
		tests := false
		for b := range lp.body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) && (decodedFrom(bo.X) == k || decodedFrom(bo.Y) == k) {
				tests = true
			}
		}
		if tests {
			loops = append(loops, lp)
		}
	}
	if len(loops) == 0 {
		r.at(rule, d.call, what, false, "nothing that runs after decoding tests the elements; "+why)
		return
	}
	r.at(rule, d.call, what, true, why)
	for _, lp := range loops {
		r.everyPassFails(rule, a, lp, what, "a test that it is not nil", has("set"))
		r.alwaysVisits(rule, a, f, lp, what)
	}
}

// replacedRule: decoding into the address of a pointer or interface replaces it, with nil when the document is null.
// What is used after that is known not to be nil.
func replacedRule(p *Prog, r *Report) {
	const rule = "nil"
	n := 0
	for _, f := range p.Funcs {
		if outsideRuntime(f) {
			continue
		}
		calls(f, func(ci ssa.CallInstruction) {
			c, ok := ci.(*ssa.Call)
			if !ok {
				return
			}
			into, data := isDecode(&c.Call)
			mi, ok := into.(*ssa.MakeInterface)
			if !ok || builtIn(p, data) {
				return
			}
			n++
			if m, _ := callOf(data); m != nil && cname(&m.Call) == "encoding/json.Marshal" {
				return
			}
			pt, ok := mi.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return
			}
			switch e := pt.Elem().Underlying().(type) {
			case *types.Pointer:
			case *types.Interface:
				if e.NumMethods() == 0 {
					return
				}
			default:
				return
			}
			same := func(v ssa.Value) bool {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return false
				}
				if u.X == mi.X {
					return true
				}
				a, ok := u.X.(*ssa.FieldAddr)
				b, ok2 := mi.X.(*ssa.FieldAddr)
				return ok && ok2 && fieldKey(a) == fieldKey(b)
			}
			what := "what was decoded is used only when it is not nil"
			bad := false
			afterDecode(c, func(i ssa.Instruction) bool {
				if st, ok := i.(*ssa.Store); ok && st.Addr == mi.X {
					return false
				}
				u, ok := i.(*ssa.UnOp)
				if !ok || !same(u) || bad {
					return !bad
				}
				for _, ref := range *u.Referrers() {
					bo, cmp := ref.(*ssa.BinOp)
					_, dbg := ref.(*ssa.DebugRef)
					if dbg || (cmp && (isNilConst(bo.X) || isNilConst(bo.Y))) {
						continue
					}
					bad = true
					r.at(rule, ref, what, false, "a document that is null makes it nil at "+p.ipos(c))
					break
				}
				return true
			}, func(v ssa.Value, o bool) bool {
				bo, ok := v.(*ssa.BinOp)
				if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || !(isNilConst(bo.Y) || isNilConst(bo.X)) || !(same(bo.X) || same(bo.Y)) {
					return false
				}
				return (bo.Op == token.NEQ) == o
			})
			if !bad {
				r.at(rule, c, what, true, "")
			}
		})
	}
	r.need(rule, "places that decode documents", n, 40)
}

// afterDecode visits what runs after a call, until visit says no, or a condition has an outcome that settles it.
func afterDecode(c *ssa.Call, visit func(i ssa.Instruction) bool, settles func(v ssa.Value, o bool) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, i := range b.Instrs[from:] {
			if !visit(i) {
				return
			}
		}
		for n, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && settles(iff.Cond, n == 0) {
				continue
			}
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for n, i := range c.Block().Instrs {
		if i == ssa.Instruction(c) {
			walk(c.Block(), n+1)
		}
	}
}
