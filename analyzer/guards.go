package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Guards: which locks are held at every access of a field, the caller's included.

// entries computes the locks held on every call of each function that is only called where it can be seen.
func (w *lockWorld) entries() {
	if w.entry != nil {
		return
	}
	w.entry = map[*ssa.Function]map[string]heldLock{}
	known := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range w.p.Funcs {
		if w.acq[f] == nil {
			continue
		}
		if cs, ok := w.knownCalls(f); ok {
			known[f] = cs
		}
	}
	top := map[*ssa.Function]bool{}
	for f := range known {
		top[f] = true
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.p.Funcs {
			cs, ok := known[f]
			if !ok {
				continue
			}
			var m map[string]heldLock
			undet := true
			for _, c := range cs {
				if top[c.Parent()] {
					continue
				}
				undet = false
				here := map[string]heldLock{}
				if _, isGo := c.(*ssa.Go); !isGo {
					for _, h := range w.mustHeld(c) {
						for _, lp := range w.lower(h.lp, c, f) {
							here[w.key(lp)+h.class] = mergeMode(here, w.key(lp)+h.class, heldLock{lp, h.class, h.read})
						}
					}
				}
				if m == nil {
					m = here
					continue
				}
				for k, h := range m {
					g, ok := here[k]
					if !ok {
						delete(m, k)
						continue
					}
					if g.read {
						h.read = true
						m[k] = h
					}
				}
			}
			if undet {
				continue
			}
			if top[f] {
				delete(top, f)
				w.entry[f] = m
				changed = true
				continue
			}
			if !sameLocks(w.entry[f], m) {
				w.entry[f] = m
				changed = true
			}
		}
	}
}

func mergeMode(m map[string]heldLock, k string, h heldLock) heldLock {
	if o, ok := m[k]; ok && !o.read {
		return o
	}
	return h
}

func sameLocks(a, b map[string]heldLock) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || x.read != y.read {
			return false
		}
	}
	return true
}

// knownCalls are all the calls of a function, if it is never handed to code that may call it at another time.
func (w *lockWorld) knownCalls(f *ssa.Function) ([]ssa.CallInstruction, bool) {
	if f.Name() == "init" || f.Name() == "main" {
		return nil, false
	}
	if f.Parent() != nil {
		var out []ssa.CallInstruction
		mcs := w.p.bindings[f]
		if len(mcs) == 0 {
			return nil, false
		}
		for _, mc := range mcs {
			for _, r := range *mc.Referrers() {
				switch x := r.(type) {
				case *ssa.DebugRef:
				case ssa.CallInstruction:
					if x.Common().Value == ssa.Value(mc) || runsNow(x.Common()) {
						out = append(out, x)
						continue
					}
					return nil, false
				case *ssa.MakeInterface:
					return nil, false
				default:
					return nil, false
				}
			}
		}
		return out, len(out) > 0
	}
	if len(w.p.refs[f]) > 0 {
		return nil, false
	}
	var out []ssa.CallInstruction
	for _, c := range w.p.sites[f] {
		if isMock(fnPkgPath(c.Parent())) {
			continue
		}
		out = append(out, c)
	}
	return out, len(out) > 0
}

// runsNow: the callbacks given to these run before they return.
func runsNow(c *ssa.CallCommon) bool {
	n := cname(c)
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "maps.") || n == "(*sync.Once).Do"
}

// mustHeld are the locks held on every path to an instruction, those of all callers included.
func (w *lockWorld) mustHeld(i ssa.Instruction) []heldLock {
	hss := w.held[i]
	var out []heldLock
	if len(hss) > 0 {
		for _, h := range hss[0] {
			all := true
			read := h.read
			for _, hs := range hss[1:] {
				found := false
				for _, g := range hs {
					if w.key(g.lp) == w.key(h.lp) {
						found = true
						read = read || g.read
					}
				}
				all = all && found
			}
			if all {
				h.read = read
				out = append(out, h)
			}
		}
	}
	for _, h := range w.entry[i.Parent()] {
		gone := false
		for _, l := range w.lent[i] {
			if w.key(l.lp) == w.key(h.lp) {
				gone = true
			}
		}
		if !gone {
			out = append(out, h)
		}
	}
	return out
}

// lower expresses a path of the caller in terms of the callee's parameters.
func (w *lockWorld) lower(lp lockPath, c ssa.CallInstruction, f *ssa.Function) []lockPath {
	var out []lockPath
	if _, ok := lp.root.(*ssa.Global); ok {
		return []lockPath{lp}
	}
	if f.Parent() != nil {
		out = append(out, lp) // captured variables are named as in the enclosing function
	}
	cc := c.Common()
	var as []ssa.Value
	if cc.IsInvoke() {
		as = append([]ssa.Value{cc.Value}, cc.Args...)
	} else {
		as = cc.Args
	}
	for i, a := range as {
		if i >= len(f.Params) {
			break
		}
		b := w.canon(a, 0)
		if b.root == lp.root && (b.path == "" || lp.path == b.path || strings.HasPrefix(lp.path, b.path+".")) {
			out = append(out, lockPath{f.Params[i], strings.TrimPrefix(lp.path, b.path)})
		}
	}
	return out
}

// fieldAccess is a use of a field, or of the map or slice it holds.
type fieldAccess struct {
	fa    *ssa.FieldAddr
	at    ssa.Instruction
	write bool
	how   string
	base  lockPath
}

// accesses finds all accesses of the fields of structs that hold a lock, but for those of objects the
// function made itself.
func (w *lockWorld) accesses() map[string][]fieldAccess {
	out := map[string][]fieldAccess{}
	for _, f := range w.p.Funcs {
		if w.acq[f] == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok || len(mutexFields(st)) == 0 {
					continue
				}
				if isMutex(st.Field(fa.Field).Type()) {
					continue
				}
				base := w.canon(fa.X, 0)
				if w.fresh(base, f) {
					continue
				}
				for _, u := range w.uses(fa) {
					u.fa = fa
					u.base = base
					out[fieldKey(fa)] = append(out[fieldKey(fa)], u)
				}
			}
		}
	}
	return out
}

func isMutex(t types.Type) bool {
	n := typeName(deref(t))
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

func mutexFields(st *types.Struct) []string {
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// fresh: the object was made by this function.
func (w *lockWorld) fresh(lp lockPath, f *ssa.Function) bool {
	if lp.path != "" {
		return false
	}
	switch x := lp.root.(type) {
	case *ssa.Alloc:
		return x.Parent() == f
	case *ssa.Parameter:
		return x.Parent() == f && w.freshParam(x, map[*ssa.Function]bool{})
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return makes(c)
		}
	case *ssa.Call:
		return makes(x)
	}
	return false
}

func makes(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	return g != nil && (strings.HasPrefix(g.Name(), "New") || strings.HasPrefix(g.Name(), "new"))
}

func (w *lockWorld) uses(fa *ssa.FieldAddr) []fieldAccess {
	var out []fieldAccess
	if fa.Referrers() == nil {
		return nil
	}
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(fa) {
				out = append(out, fieldAccess{at: x, write: true, how: "set"})
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				continue
			}
			out = append(out, w.loadUses(x)...)
		}
	}
	return out
}

// freshParam: the function is only called, on the same goroutine, by the constructor of what it is given.
func (w *lockWorld) freshParam(x *ssa.Parameter, seen map[*ssa.Function]bool) bool {
	f := x.Parent()
	if seen[f] {
		return false
	}
	seen[f] = true
	cs, ok := w.knownCalls(f)
	if !ok || f.Parent() != nil {
		return false
	}
	idx := -1
	for i, p := range f.Params {
		if p == x {
			idx = i
		}
	}
	for _, c := range cs {
		cc := c.Common()
		if _, is := c.(*ssa.Call); !is || cc.IsInvoke() || idx < 0 || idx >= len(cc.Args) {
			return false
		}
		b := w.canon(cc.Args[idx], 0)
		if b.path != "" {
			return false
		}
		switch r := b.root.(type) {
		case *ssa.Alloc:
			if r.Parent() != c.Parent() || !strings.HasPrefix(strings.ToLower(c.Parent().Name()), "new") {
				return false
			}
		case *ssa.Parameter:
			if r.Parent() != c.Parent() || !w.freshParam(r, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// globalAccesses finds the accesses of package variables, in packages that have a lock among these, outside
// of package initialisation.
func (w *lockWorld) globalAccesses() map[string][]fieldAccess {
	out := map[string][]fieldAccess{}
	withLock := map[*ssa.Package]bool{}
	for _, pk := range w.p.SSA.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && isMutex(deref(g.Type())) {
				withLock[pk] = true
			}
		}
	}
	for _, f := range w.p.Funcs {
		if w.acq[f] == nil || strings.HasPrefix(f.Name(), "init") || f.Pkg == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				add := func(g *ssa.Global, us []fieldAccess) {
					if !withLock[g.Pkg] || isMutex(deref(g.Type())) {
						return
					}
					k := short(g.String())
					for _, u := range us {
						u.base = lockPath{g, ""}
						out[k] = append(out[k], u)
					}
				}
				switch x := i.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						add(g, []fieldAccess{{at: x, write: true, how: "set"}})
					}
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
						add(g, w.loadUses(x))
					}
				}
			}
		}
	}
	return out
}

// loadUses are a load and the uses of the map or slice it gives.
func (w *lockWorld) loadUses(x *ssa.UnOp) []fieldAccess {
	var out []fieldAccess
	out = append(out, fieldAccess{at: x, how: "read"})
	if x.Referrers() == nil {
		return out
	}
	switch x.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return out
	}
	for _, u := range *x.Referrers() {
		switch y := u.(type) {
		case *ssa.MapUpdate:
			if y.Map == ssa.Value(x) {
				out = append(out, fieldAccess{at: y, write: true, how: "entry set"})
			}
		case *ssa.Lookup:
			out = append(out, fieldAccess{at: y, how: "entry read"})
		case *ssa.IndexAddr:
			out = append(out, fieldAccess{at: y, how: "element used"})
		case *ssa.Range:
			out = append(out, fieldAccess{at: y, how: "ranged over"})
			for _, n := range *y.Referrers() {
				if nx, ok := n.(*ssa.Next); ok {
					out = append(out, fieldAccess{at: nx, how: "ranged over"})
				}
			}
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok {
				out = append(out, fieldAccess{at: y, write: b.Name() == "delete" || b.Name() == "clear", how: b.Name()})
			}
		}
	}
	return out
}

// ownedAccesses finds the accesses of fields of structs without a lock of their own, that may be protected
// by the lock of the object they belong to.
func (w *lockWorld) ownedAccesses() map[string][]fieldAccess {
	out := map[string][]fieldAccess{}
	for _, f := range w.p.Funcs {
		if w.acq[f] == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok || len(mutexFields(st)) > 0 {
					continue
				}
				base := w.canon(fa.X, 0)
				if w.fresh(base, f) {
					continue
				}
				for _, u := range w.uses(fa) {
					u.fa = fa
					u.base = base
					out[fieldKey(fa)] = append(out[fieldKey(fa)], u)
				}
			}
		}
	}
	return out
}
