package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks: which mutexes are held where. A lock is named by an access path: the value it is reached from (a
// parameter, a global, a local, with captured variables resolved to the variable of the enclosing function)
// and the fields in between. The analysis keeps all combinations of locks that can be held at a point and
// what was deferred, so that it decides every path of every function, and follows calls with summaries.

type lockPath struct {
	root ssa.Value
	path string
}

type heldLock struct {
	lp    lockPath
	class string
	read  bool
}

// lockOp is what a call does to a lock.
type lockOp struct {
	lp    lockPath
	class string
	read  bool
	unl   bool
	try   bool
}

type lockWorld struct {
	p       *Prog
	ids     map[ssa.Value]int
	sums    map[*ssa.Function]*lockSum
	acq     map[*ssa.Function]map[string]acqInfo
	held    map[ssa.Instruction][][]heldLock      // at calls and field accesses: the combinations that can be held
	lent    map[ssa.Instruction][]heldLock        // ... and those of the caller given back on some path to there
	entry   map[*ssa.Function]map[string]heldLock // held on every call, known as of entries()
	probs   []lockProblem
	Fns     int
	Sites   int
	byClass map[string]int
}

// lockSum is the net effect of a function on its caller's locks.
type lockSum struct {
	acquires []heldLock // held on every return, not on entry
	releases []heldLock // released on every return, held on entry
	busy     bool
}

type acqInfo struct {
	lp    lockPath // root nil: not expressible in terms of the function's parameters or globals
	class string
	read  bool
	via   string
	at    ssa.Instruction
}

type lockProblem struct {
	rule string
	at   ssa.Instruction
	what string
	det  string
}

func newLockWorld(p *Prog) *lockWorld {
	w := &lockWorld{p: p, ids: map[ssa.Value]int{}, sums: map[*ssa.Function]*lockSum{}, acq: map[*ssa.Function]map[string]acqInfo{},
		held: map[ssa.Instruction][][]heldLock{}, lent: map[ssa.Instruction][]heldLock{}, byClass: map[string]int{}}
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) || f.Synthetic != "" {
			continue
		}
		w.sum(f)
	}
	w.wrappers()
	w.acquisitions()
	w.reentrancy()
	return w
}

func (w *lockWorld) id(v ssa.Value) int {
	if v == nil {
		return 0
	}
	if w.ids[v] == 0 {
		w.ids[v] = len(w.ids) + 1
	}
	return w.ids[v]
}

func (w *lockWorld) key(lp lockPath) string { return fmt.Sprintf("%d%s", w.id(lp.root), lp.path) }

// canon gives the access path of a pointer or value.
func (w *lockWorld) canon(v ssa.Value, d int) lockPath {
	if d > 12 {
		return lockPath{v, ""}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		b := w.canon(x.X, d+1)
		return lockPath{b.root, b.path + "." + structField(deref(x.X.Type()), x.Field)}
	case *ssa.Field:
		b := w.canon(x.X, d+1)
		return lockPath{b.root, b.path + "." + structField(x.X.Type(), x.Field)}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				if s := w.onlyStore(a, d); s != nil {
					return w.canon(s, d+1)
				}
				return w.canon(a, d+1)
			}
			return w.canon(x.X, d+1)
		}
	case *ssa.FreeVar:
		mcs := w.p.bindings[x.Parent()]
		if len(mcs) == 1 {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					return w.canon(mcs[0].Bindings[i], d+1)
				}
			}
		}
	case *ssa.MakeInterface:
		return w.canon(x.X, d+1)
	case *ssa.ChangeType:
		return w.canon(x.X, d+1)
	case *ssa.ChangeInterface:
		return w.canon(x.X, d+1)
	case *ssa.TypeAssert:
		return w.canon(x.X, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return w.canon(ta.X, d+1)
		}
	}
	return lockPath{v, ""}
}

// onlyStore is the one value ever stored in a local that holds a reference.
func (w *lockWorld) onlyStore(addr ssa.Value, d int) ssa.Value {
	for {
		fv, ok := addr.(*ssa.FreeVar)
		if !ok {
			break
		}
		mcs := w.p.bindings[fv.Parent()]
		if len(mcs) != 1 {
			return nil
		}
		var next ssa.Value
		for i, x := range fv.Parent().FreeVars {
			if x == fv {
				next = mcs[0].Bindings[i]
			}
		}
		if next == nil {
			return nil
		}
		addr = next
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	_, sts, ok := localStores(w.p, al)
	if !ok || len(sts) != 1 {
		return nil
	}
	return sts[0].Val
}

// lockCall recognises operations of sync mutexes.
func (w *lockWorld) lockCall(c *ssa.CallCommon) (lockOp, bool) {
	n := cname(c)
	op := lockOp{}
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		op.try = true
	case "(*sync.RWMutex).RLock":
		op.read = true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		op.unl = true
	case "(*sync.RWMutex).RUnlock":
		op.unl, op.read = true, true
	default:
		return op, false
	}
	if len(c.Args) == 0 {
		return op, false
	}
	op.lp = w.canon(c.Args[0], 0)
	op.class = lockClass(c.Args[0])
	return op, true
}

// lockClass names the kind of lock: the struct and field, or the global, it is.
func lockClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x)
	case *ssa.Field:
		return typeName(x.X.Type()) + "." + structField(x.X.Type(), x.Field)
	case *ssa.UnOp:
		return lockClass(x.X)
	case *ssa.Global:
		return short(x.String())
	case *ssa.Alloc:
		return fname(x.Parent()) + "." + x.Comment
	case *ssa.FreeVar:
		return fname(x.Parent()) + "." + x.Name()
	case *ssa.Phi:
		return fname(x.Parent()) + "." + x.Comment
	}
	return typeName(v.Type())
}

type lstate struct {
	held     []heldLock // in order of acquisition
	lent     []heldLock // released although not taken here
	deferred []deferredOp
}

// deferredOp is a lock operation, or another call, that runs when the function returns.
type deferredOp struct {
	op   lockOp
	call *ssa.Defer
}

func (w *lockWorld) skey(s *lstate) string {
	var sb strings.Builder
	for _, h := range s.held {
		fmt.Fprintf(&sb, "h%s%v;", w.key(h.lp), h.read)
	}
	for _, h := range s.lent {
		fmt.Fprintf(&sb, "l%s%v;", w.key(h.lp), h.read)
	}
	for _, o := range s.deferred {
		if o.call != nil {
			fmt.Fprintf(&sb, "c%p;", o.call)
			continue
		}
		fmt.Fprintf(&sb, "d%s%v%v;", w.key(o.op.lp), o.op.read, o.op.unl)
	}
	return sb.String()
}

func (s *lstate) clone() *lstate {
	return &lstate{append([]heldLock{}, s.held...), append([]heldLock{}, s.lent...), append([]deferredOp{}, s.deferred...)}
}

func (w *lockWorld) apply(s *lstate, op lockOp, at ssa.Instruction, report bool) {
	k := w.key(op.lp)
	if op.unl {
		for i := len(s.held) - 1; i >= 0; i-- {
			if w.key(s.held[i].lp) == k && s.held[i].read == op.read {
				s.held = append(append([]heldLock{}, s.held[:i]...), s.held[i+1:]...)
				return
			}
		}
		s.lent = append(s.lent, heldLock{op.lp, op.class, op.read})
		return
	}
	for i := len(s.lent) - 1; i >= 0; i-- {
		if w.key(s.lent[i].lp) == k && s.lent[i].read == op.read {
			s.lent = append(append([]heldLock{}, s.lent[:i]...), s.lent[i+1:]...)
			return
		}
	}
	if report {
		for _, h := range s.held {
			if w.key(h.lp) == k && !(h.read && op.read) {
				w.problem("reentry", at, op.class, "is locked again on a path that already holds it")
				return // the path ends here
			}
		}
	}
	s.held = append(s.held, heldLock{op.lp, op.class, op.read})
}

func (w *lockWorld) problem(rule string, at ssa.Instruction, what, det string) {
	w.probs = append(w.probs, lockProblem{rule, at, what, det})
}

// sum computes the lock states of a function and its net effect.
func (w *lockWorld) sum(f *ssa.Function) *lockSum {
	if s, ok := w.sums[f]; ok {
		return s
	}
	sm := &lockSum{busy: true}
	w.sums[f] = sm
	if len(f.Blocks) == 0 {
		return sm
	}
	w.Fns++
	in := map[*ssa.BasicBlock]map[string]*lstate{}
	type item struct {
		b *ssa.BasicBlock
		s *lstate
	}
	var work []item
	push := func(b *ssa.BasicBlock, s *lstate) {
		if in[b] == nil {
			in[b] = map[string]*lstate{}
		}
		k := w.skey(s)
		if _, ok := in[b][k]; ok || len(in[b]) >= 64 {
			return
		}
		in[b][k] = s
		work = append(work, item{b, s})
	}
	push(f.Blocks[0], &lstate{})
	type exit struct {
		at ssa.Instruction
		s  *lstate
	}
	var exits []exit
	reported := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.s.clone()
		var tryVal ssa.Value
		var tryOp lockOp
		for _, i := range it.b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				w.note(i, s)
				if op, ok := w.lockCall(&x.Call); ok {
					if !op.unl {
						w.Sites++
						w.byClass[op.class]++
					}
					if op.try {
						tryVal, tryOp = x, op
						continue
					}
					w.apply(s, op, i, true)
					continue
				}
				for _, op := range w.effects(x) {
					w.apply(s, op, i, true)
				}
			case *ssa.Defer:
				if op, ok := w.lockCall(&x.Call); ok {
					s.deferred = append(s.deferred, deferredOp{op: op})
					continue
				}
				s.deferred = append(s.deferred, deferredOp{call: x})
			case *ssa.RunDefers:
				for j := len(s.deferred) - 1; j >= 0; j-- {
					if d := s.deferred[j].call; d != nil {
						w.note(d, s)
						for _, op := range w.effects(d) {
							w.apply(s, op, i, true)
						}
						continue
					}
					w.apply(s, s.deferred[j].op, i, true)
				}
				s.deferred = nil
			case *ssa.Return:
				exits = append(exits, exit{i, s})
			case *ssa.FieldAddr, *ssa.UnOp, *ssa.Store, *ssa.MapUpdate, *ssa.Lookup, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Range, *ssa.Next, *ssa.MakeClosure, *ssa.Index, *ssa.IndexAddr:
				w.note(i, s)
			}
		}
		if len(it.b.Succs) == 2 && tryVal != nil {
			if ifi, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
				t, e := 0, 1
				c := ifi.Cond
				if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
					c = u.X
					t, e = 1, 0
				}
				if c == tryVal {
					got := s.clone()
					w.apply(got, tryOp, ifi, true)
					push(it.b.Succs[t], got)
					push(it.b.Succs[e], s.clone())
					continue
				}
			}
		}
		for _, n := range it.b.Succs {
			push(n, s.clone())
		}
	}
	// net effect: the same on all exits
	count := func(hs []heldLock) map[string]heldLock {
		m := map[string]heldLock{}
		for _, h := range hs {
			m[w.key(h.lp)] = h
		}
		return m
	}
	heldOn, lentOn := map[string]int{}, map[string]int{}
	ref := map[string]heldLock{}
	for _, e := range exits {
		for k, h := range count(e.s.held) {
			heldOn[k]++
			ref[k] = h
		}
		for k, h := range count(e.s.lent) {
			lentOn[k]++
			ref[k] = h
		}
	}
	for _, k := range sortedKeys(ref) {
		h := ref[k]
		visible := w.visible(f, h.lp)
		switch {
		case heldOn[k] == len(exits) && visible:
			sm.acquires = append(sm.acquires, h)
		case lentOn[k] == len(exits) && visible:
			sm.releases = append(sm.releases, h)
		default:
			for _, e := range exits {
				if _, ok := count(e.s.held)[k]; ok {
					d := h.class + fname(f)
					if !reported[d+"held"] {
						reported[d+"held"] = true
						w.problem("released", e.at, h.class, "is still held on a path that returns here")
					}
				}
				if _, ok := count(e.s.lent)[k]; ok {
					d := h.class + fname(f)
					if !reported[d+"lent"] {
						reported[d+"lent"] = true
						w.problem("released", e.at, h.class, "is released on a path to here that does not hold it")
					}
				}
			}
		}
	}
	sm.busy = false
	return sm
}

// visible: the caller can know the lock.
func (w *lockWorld) visible(f *ssa.Function, lp lockPath) bool {
	switch x := lp.root.(type) {
	case *ssa.Global:
		return true
	case *ssa.Parameter:
		return true
	case *ssa.Alloc:
		return x.Parent() != f
	}
	return false
}

// effects are the net lock operations of a call.
func (w *lockWorld) effects(c ssa.CallInstruction) []lockOp {
	cc := c.Common()
	var g *ssa.Function
	if sc := cc.StaticCallee(); sc != nil {
		g = unwrapBound(sc)
	} else if !cc.IsInvoke() {
		if gs := w.p.callees(c); len(gs) == 1 {
			g = gs[0]
		}
	}
	if g == nil || !w.p.InRepo[g] {
		return nil
	}
	s := w.sum(g)
	var out []lockOp
	for _, h := range s.releases {
		out = append(out, lockOp{lp: w.translate(h.lp, c, g), class: h.class, read: h.read, unl: true})
	}
	for _, h := range s.acquires {
		out = append(out, lockOp{lp: w.translate(h.lp, c, g), class: h.class, read: h.read})
	}
	return out
}

// translate expresses a path of a callee in the caller.
func (w *lockWorld) translate(lp lockPath, c ssa.CallInstruction, g *ssa.Function) lockPath {
	pr, ok := lp.root.(*ssa.Parameter)
	if !ok {
		return lp
	}
	if pr.Parent() != g {
		return lp // a closure's path in terms of the enclosing function
	}
	idx := -1
	for i, p := range g.Params {
		if p == pr {
			idx = i
		}
	}
	cc := c.Common()
	var a ssa.Value
	if cc.IsInvoke() {
		if idx == 0 {
			a = cc.Value
		} else if idx-1 < len(cc.Args) {
			a = cc.Args[idx-1]
		}
	} else if sc := cc.StaticCallee(); sc != nil && unwrapBound(sc) != sc && strings.HasPrefix(sc.Synthetic, "bound") {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && idx == 0 && len(mc.Bindings) == 1 {
			a = mc.Bindings[0]
		} else if idx > 0 && idx-1 < len(cc.Args) {
			a = cc.Args[idx-1]
		}
	} else if idx >= 0 && idx < len(cc.Args) && (cc.StaticCallee() != nil || g.Signature.Recv() == nil) {
		a = cc.Args[idx]
	}
	if a == nil {
		return lockPath{nil, lp.path}
	}
	b := w.canon(a, 0)
	return lockPath{b.root, b.path + lp.path}
}

func (w *lockWorld) note(i ssa.Instruction, s *lstate) {
	w.held[i] = append(w.held[i], append([]heldLock{}, s.held...))
	w.lent[i] = append(w.lent[i], s.lent...)
}

// acquisitions computes what locks a call of each function can take, transitively, on the calling goroutine.
func (w *lockWorld) acquisitions() {
	var fns []*ssa.Function
	for _, f := range w.p.Funcs {
		if isMock(fnPkgPath(f)) || f.Synthetic != "" {
			continue
		}
		fns = append(fns, f)
		m := map[string]acqInfo{}
		calls(f, func(c ssa.CallInstruction) {
			if _, isGo := c.(*ssa.Go); isGo {
				return
			}
			if op, ok := w.lockCall(c.Common()); ok && !op.unl && !op.try {
				w.addAcq(m, f, acqInfo{op.lp, op.class, op.read, "", c})
			}
		})
		w.acq[f] = m
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			m := w.acq[f]
			calls(f, func(c ssa.CallInstruction) {
				if _, isGo := c.(*ssa.Go); isGo {
					return
				}
				for _, g := range w.callees(c) {
					for _, k := range sortedKeys(w.acq[g]) {
						a := w.acq[g][k]
						via := fname(g)
						if a.via != "" && len(strings.Split(a.via, " -> ")) < 6 {
							via += " -> " + a.via
						}
						if w.addAcq(m, f, acqInfo{w.translate(a.lp, c, g), a.class, a.read, via, c}) {
							changed = true
						}
					}
				}
			})
		}
	}
}

// callees that run as part of the call.
func (w *lockWorld) callees(c ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range w.p.callees(c) {
		if w.p.InRepo[g] && !isMock(fnPkgPath(g)) && len(g.Blocks) > 0 {
			out = append(out, g)
		}
	}
	return out
}

func (w *lockWorld) addAcq(m map[string]acqInfo, f *ssa.Function, a acqInfo) bool {
	if strings.Count(a.lp.path, ".") > 5 {
		a.lp = lockPath{nil, "deep"}
	}
	switch r := a.lp.root.(type) {
	case *ssa.Parameter, *ssa.Global:
	case *ssa.Alloc:
		if r.Parent() == f {
			a.lp = lockPath{nil, "local"}
		}
	default:
		a.lp = lockPath{nil, "unknown"}
	}
	k := a.class + "|" + w.key(a.lp) + fmt.Sprint(a.read)
	if _, ok := m[k]; ok {
		return false
	}
	m[k] = a
	return true
}

// reentrancy finds calls that take, while running, a lock that is held at the call.
func (w *lockWorld) reentrancy() {
	seen := map[string]bool{}
	for _, f := range w.p.Funcs {
		if w.acq[f] == nil {
			continue
		}
		calls(f, func(c ssa.CallInstruction) {
			if _, ok := c.(*ssa.Call); !ok {
				return
			}
			if _, ok := w.lockCall(c.Common()); ok {
				return
			}
			hss := w.held[c]
			if len(hss) == 0 {
				return
			}
			for _, g := range w.callees(c) {
				for _, k := range sortedKeys(w.acq[g]) {
					a := w.acq[g][k]
					lp := w.translate(a.lp, c, g)
					if lp.root == nil {
						continue
					}
					for _, hs := range hss {
						for _, h := range hs {
							if w.key(h.lp) == w.key(lp) && !(h.read && a.read) {
								if released(w, g, a) {
									continue
								}
								d := fmt.Sprint(w.p.ipos(c), a.class)
								if !seen[d] {
									seen[d] = true
									via := fname(g)
									if a.via != "" {
										via += " -> " + a.via
									}
									w.problem("reentry", c, a.class, "is held here, and taken again by the call to "+via)
								}
							}
						}
					}
				}
			}
		})
	}
}

// released: the function gives the lock back before it takes it again.
func released(w *lockWorld, g *ssa.Function, a acqInfo) bool {
	for _, h := range w.sum(g).releases {
		if w.key(h.lp) == w.key(a.lp) {
			return true
		}
	}
	return false
}

// lockEdge: a lock of one class is taken while one of another is held.
type lockEdge struct {
	from, to string
	at       ssa.Instruction
	via      string
	same     bool // known to be different locks
}

func (w *lockWorld) edges() []lockEdge {
	var out []lockEdge
	seen := map[string]bool{}
	add := func(from, to heldLock, at ssa.Instruction, via string) {
		k := from.class + ">" + to.class
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, lockEdge{from: from.class, to: to.class, at: at, via: via})
	}
	for _, f := range w.p.Funcs {
		if w.acq[f] == nil {
			continue
		}
		calls(f, func(c ssa.CallInstruction) {
			if _, ok := c.(*ssa.Call); !ok {
				return
			}
			hss := w.held[c]
			if op, ok := w.lockCall(c.Common()); ok {
				if !op.unl && !op.try {
					for _, hs := range hss {
						for _, h := range hs {
							add(h, heldLock{op.lp, op.class, op.read}, c, "")
						}
					}
				}
				return
			}
			for _, g := range w.callees(c) {
				for _, k := range sortedKeys(w.acq[g]) {
					a := w.acq[g][k]
					for _, hs := range hss {
						for _, h := range hs {
							via := fname(g)
							if a.via != "" {
								via += " -> " + a.via
							}
							add(h, heldLock{a.lp, a.class, a.read}, c, via)
						}
					}
				}
			}
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].from+out[i].to < out[j].from+out[j].to })
	return out
}

var _ = types.Typ

// cycles groups lock classes that are taken in conflicting orders.
func (w *lockWorld) cycles(es []lockEdge) [][]string {
	adj := map[string][]string{}
	for _, e := range es {
		if e.from != e.to {
			adj[e.from] = append(adj[e.from], e.to)
		}
	}
	// Tarjan
	idx, low := map[string]int{}, map[string]int{}
	on := map[string]bool{}
	var stack []string
	var out [][]string
	n := 0
	var visit func(v string)
	visit = func(v string) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for _, x := range adj[v] {
			if idx[x] == 0 {
				visit(x)
				if low[x] < low[v] {
					low[v] = low[x]
				}
			} else if on[x] && idx[x] < low[v] {
				low[v] = idx[x]
			}
		}
		if low[v] == idx[v] {
			var c []string
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				c = append(c, x)
				if x == v {
					break
				}
			}
			if len(c) > 1 {
				sort.Strings(c)
				out = append(out, c)
			}
		}
	}
	for _, v := range sortedKeys(adj) {
		if idx[v] == 0 {
			visit(v)
		}
	}
	return out
}

// wrappers: a function may leave a lock taken, or released, for its caller, if there is a caller that settles it.
func (w *lockWorld) wrappers() {
	nets := func(f *ssa.Function, class string) bool {
		s := w.sums[f]
		if s == nil {
			return false
		}
		for _, h := range append(append([]heldLock{}, s.acquires...), s.releases...) {
			if h.class == class {
				return true
			}
		}
		return false
	}
	settled := func(f *ssa.Function, class string) bool {
		for _, c := range w.p.sites[f] {
			if !nets(c.Parent(), class) && w.sums[c.Parent()] != nil {
				if _, isGo := c.(*ssa.Go); !isGo && len(w.effects(c)) > 0 {
					return true
				}
			}
		}
		return false
	}
	for _, f := range w.p.Funcs {
		s := w.sums[f]
		if s == nil || len(f.Blocks) == 0 {
			continue
		}
		var at ssa.Instruction
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && at == nil {
				at = ret
			}
		}
		if at == nil {
			continue
		}
		for _, h := range s.acquires {
			if !settled(f, h.class) {
				w.problem("released", at, h.class, "is still held whenever the function returns, and no caller releases it")
			}
		}
		for _, h := range s.releases {
			if !settled(f, h.class) {
				w.problem("released", at, h.class, "is released by the function without having been taken, and no caller takes it")
			}
		}
	}
}
