package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value provenance over SSA: where a value comes from, through phis, locals, captured variables,
// conversions, parameters (to the arguments of every caller) and results (into repo callees).

type Flow struct {
	P *Prog
	// Stop says a value is a source and gives a label for it, or "" to carry on.
	Stop func(v ssa.Value) string
	// Thru follows a value to others instead of what it would be followed to; nil when not handled.
	Thru func(v ssa.Value) []ssa.Value
	// Derive follows a call to these arguments instead of treating it as a leaf; nil when not handled.
	Derive func(c *ssa.Call) []ssa.Value
	// Via lists fields ("pkg.Type.field") that are followed to the value they belong to.
	Via map[string]bool
	// NoCallers stops at parameters.
	NoCallers bool
	// NoDescend stops at calls of repo functions.
	NoDescend bool
	Depth     int
	// In restricts the callers that parameters are followed to, when set.
	In map[*ssa.Function]bool

	cxs map[cxKey]*callCtx
}

// callCtx is the chain of calls a walk went into, so that parameters resolve to the call they belong to.
type callCtx struct {
	site *ssa.Call
	fn   *ssa.Function
	up   *callCtx
}

type flowKey struct {
	v  ssa.Value
	cx *callCtx
}

// Origin is a leaf of the provenance walk.
type Origin struct {
	V     ssa.Value
	Label string
}

// From gives all origins of a value.
func (f *Flow) From(v ssa.Value) []Origin {
	seen := map[flowKey]bool{}
	var out []Origin
	f.walk(v, seen, &out, 0, nil)
	return out
}

// Labels gives the set of labels; a leaf without a label appears as "?<kind>".
func (f *Flow) Labels(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	for _, o := range f.From(v) {
		out[o.Label] = true
	}
	return out
}

// Only reports that every origin of v carries one of the labels, and that there is one at all.
func (f *Flow) Only(v ssa.Value, labels ...string) bool {
	ls := f.Labels(v)
	if len(ls) == 0 {
		return false
	}
	ok := map[string]bool{}
	for _, l := range labels {
		ok[l] = true
	}
	for l := range ls {
		if !ok[l] {
			return false
		}
	}
	return true
}

// Any reports that some origin carries the label.
func (f *Flow) Any(v ssa.Value, label string) bool { return f.Labels(v)[label] }

func (f *Flow) walk(v ssa.Value, seen map[flowKey]bool, out *[]Origin, depth int, cx *callCtx) {
	if v == nil || seen[flowKey{v, cx}] {
		return
	}
	seen[flowKey{v, cx}] = true
	if f.Stop != nil {
		if l := f.Stop(v); l != "" {
			*out = append(*out, Origin{v, l})
			return
		}
	}
	if f.Thru != nil {
		if vs := f.Thru(v); vs != nil {
			for _, x := range vs {
				f.walk(x, seen, out, depth+1, cx)
			}
			return
		}
	}
	max := f.Depth
	if max == 0 {
		max = 60
	}
	leaf := func(k string) { *out = append(*out, Origin{v, "?" + k}) }
	if depth > max {
		leaf("deep")
		return
	}
	d := depth + 1
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			leaf("nil")
			return
		}
		switch x.Value.Kind() {
		case constant.String:
			if constant.StringVal(x.Value) == "" {
				leaf("zero")
				return
			}
		case constant.Bool:
			if !constant.BoolVal(x.Value) {
				leaf("zero")
				return
			}
		}
		leaf("const")
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.walk(e, seen, out, d, cx)
		}
	case *ssa.Convert:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.ChangeType:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.ChangeInterface:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.MakeInterface:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.SliceToArrayPointer:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.TypeAssert:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.Slice:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			f.call(t, x.Index, v, seen, out, d, cx)
		case *ssa.TypeAssert:
			if x.Index == 0 {
				f.walk(t.X, seen, out, d, cx)
			} else {
				leaf("ok")
			}
		case *ssa.Lookup:
			f.walk(t, seen, out, d, cx)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				f.walk(r.X, seen, out, d, cx)
			} else {
				leaf("next")
			}
		case *ssa.UnOp:
			leaf("recv")
		case *ssa.Select:
			if x.Index >= 2 {
				leaf("recv")
			} else {
				leaf("select")
			}
		default:
			leaf("extract")
		}
	case *ssa.Call:
		f.call(x, 0, v, seen, out, d, cx)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			f.addr(x.X, v, seen, out, d, cx)
		case token.NOT:
			f.walk(x.X, seen, out, d, cx)
		case token.ARROW:
			leaf("recv")
		default:
			leaf("unop")
		}
	case *ssa.BinOp:
		f.walk(x.X, seen, out, d, cx)
		f.walk(x.Y, seen, out, d, cx)
	case *ssa.Parameter:
		f.param(x, seen, out, d, cx)
	case *ssa.FreeVar:
		mcs := f.P.bindings[x.Parent()]
		if len(mcs) == 0 {
			leaf("freevar")
			return
		}
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				for _, mc := range mcs {
					f.walk(mc.Bindings[i], seen, out, d, cx)
				}
			}
		}
	case *ssa.Alloc:
		f.addr(x, v, seen, out, d, cx)
	case *ssa.Field:
		if f.Via[typeName(x.X.Type())+"."+structField(x.X.Type(), x.Field)] {
			f.walk(x.X, seen, out, d, cx)
			return
		}
		*out = append(*out, Origin{v, "field:" + typeName(x.X.Type()) + "." + structField(x.X.Type(), x.Field)})
	case *ssa.FieldAddr:
		if f.Via[fieldKey(x)] {
			f.walk(x.X, seen, out, d, cx)
			return
		}
		*out = append(*out, Origin{v, "field:" + fieldKey(x)})
	case *ssa.IndexAddr:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.Index:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.Lookup:
		f.walk(x.X, seen, out, d, cx)
	case *ssa.Global:
		*out = append(*out, Origin{v, "global:" + short(x.String())})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		leaf("make")
	case *ssa.MakeClosure, *ssa.Function:
		leaf("func")
	default:
		leaf("other")
	}
}

func (f *Flow) addr(a ssa.Value, v ssa.Value, seen map[flowKey]bool, out *[]Origin, d int, cx *callCtx) {
	switch x := a.(type) {
	case *ssa.Alloc:
		n := 0
		f.stores(x, func(s *ssa.Store) { n++; f.walk(s.Val, seen, out, d, cx) }, 0)
		// elements of a local array or fields of a local struct
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				for _, rr := range *y.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == y {
						n++
						f.walk(s.Val, seen, out, d, cx)
					}
				}
			}
		}
		if n == 0 {
			*out = append(*out, Origin{v, "?zero"})
		}
	case *ssa.FreeVar:
		mcs := f.P.bindings[x.Parent()]
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				for _, mc := range mcs {
					f.addr(mc.Bindings[i], v, seen, out, d, cx)
				}
			}
		}
	case *ssa.FieldAddr:
		// a field of a local struct resolves to what was stored in it, when it is stored at all
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == x.Field {
					for _, rr := range *fa.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
							n++
							f.walk(s.Val, seen, out, d, cx)
						}
					}
				}
			}
			if n > 0 {
				return
			}
		}
		if f.Via[fieldKey(x)] {
			f.walk(x.X, seen, out, d, cx)
			return
		}
		*out = append(*out, Origin{v, "field:" + fieldKey(x)})
	case *ssa.Global:
		*out = append(*out, Origin{v, "global:" + short(x.String())})
	case *ssa.IndexAddr:
		f.walk(x.X, seen, out, d, cx)
	default:
		f.walk(a, seen, out, d, cx)
	}
}

func (f *Flow) stores(addr ssa.Value, visit func(*ssa.Store), depth int) {
	if depth > 6 || addr.Referrers() == nil {
		return
	}
	for _, r := range *addr.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == addr {
				visit(y)
			}
		case *ssa.MakeClosure:
			fn := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b == addr {
					f.stores(fn.FreeVars[i], visit, depth+1)
				}
			}
		}
	}
}

func (f *Flow) param(x *ssa.Parameter, seen map[flowKey]bool, out *[]Origin, d int, cx *callCtx) {
	fn := x.Parent()
	idx := -1
	for i, p := range fn.Params {
		if p == x {
			idx = i
		}
	}
	if cx != nil && cx.fn == fn {
		cc := cx.site.Common()
		i := idx
		if cc.IsInvoke() {
			if idx == 0 {
				f.walk(cc.Value, seen, out, d, cx.up)
				return
			}
			i--
		}
		if i >= 0 && i < len(cc.Args) {
			f.walk(cc.Args[i], seen, out, d, cx.up)
			return
		}
	}
	sites := f.P.sites[fn]
	if f.In != nil {
		var in []ssa.CallInstruction
		for _, s := range sites {
			if f.In[s.Parent()] {
				in = append(in, s)
			}
		}
		sites = in
	}
	if f.NoCallers || len(sites) == 0 {
		*out = append(*out, Origin{x, "param:" + fname(fn) + "." + x.Name()})
		return
	}
	for _, s := range sites {
		cc := s.Common()
		i := idx
		if cc.IsInvoke() {
			if idx == 0 {
				f.walk(cc.Value, seen, out, d, cx)
				continue
			}
			i--
		}
		// bound method values have the receiver bound already
		if cc.StaticCallee() == nil && !cc.IsInvoke() && fn.Signature.Recv() != nil {
			i--
		}
		if i >= 0 && i < len(cc.Args) {
			f.walk(cc.Args[i], seen, out, d, cx)
		}
	}
}

// enter interns call contexts and bounds their depth.
func (f *Flow) enter(c *ssa.Call, g *ssa.Function, up *callCtx) *callCtx {
	n := 0
	for x := up; x != nil; x = x.up {
		if x.fn == g {
			return up // recursion
		}
		n++
	}
	if n > 8 {
		return up
	}
	if f.cxs == nil {
		f.cxs = map[cxKey]*callCtx{}
	}
	k := cxKey{c, g, up}
	if x, ok := f.cxs[k]; ok {
		return x
	}
	x := &callCtx{site: c, fn: g, up: up}
	f.cxs[k] = x
	return x
}

type cxKey struct {
	c  *ssa.Call
	g  *ssa.Function
	up *callCtx
}

func (f *Flow) call(c *ssa.Call, idx int, v ssa.Value, seen map[flowKey]bool, out *[]Origin, d int, cx *callCtx) {
	if f.Derive != nil {
		if vs := f.Derive(c); vs != nil {
			for _, a := range vs {
				f.walk(a, seen, out, d, cx)
			}
			return
		}
	}
	if !f.NoDescend {
		gs := f.P.callees(c)
		all := len(gs) > 0
		for _, g := range gs {
			if !f.P.InRepo[g] {
				all = false
			}
		}
		if all {
			for _, g := range gs {
				ncx := f.enter(c, g, cx)
				for _, b := range g.Blocks {
					if b == g.Recover {
						continue
					}
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
						f.walk(r.Results[idx], seen, out, d, ncx)
					}
				}
			}
			return
		}
	}
	n := cname(&c.Call)
	if n == "" {
		n = "dynamic"
	}
	*out = append(*out, Origin{v, "call:" + n})
}

func isType(t types.Type, name string) bool { return typeName(t) == name }

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	i, ok := constant.Int64Val(c.Value)
	return i, ok
}

// recvChan gives the channel a value was received from.
func recvChan(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return x.X
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.UnOp:
			return recvChan(t)
		case *ssa.Select:
			n := 1
			for _, s := range t.States {
				if s.Dir == types.RecvOnly {
					n++
					if n == x.Index {
						return s.Chan
					}
				}
			}
		}
	}
	return nil
}
