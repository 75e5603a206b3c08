package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: goroutines end and are waited for. Work groups are counted, loops that wait leave when their context ends,
// and nothing waits for ever to hand a value over.

// held names what a value refers to within its function: a parameter, a captured variable, a field or a local.
func held(v ssa.Value) string {
	for n := 0; n < 20; n++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, q := range x.Parent().Params {
				if q == x {
					return fmt.Sprintf("p%d", i)
				}
			}
			return ""
		case *ssa.FreeVar:
			for i, q := range x.Parent().FreeVars {
				if q == x {
					return fmt.Sprintf("f%d", i)
				}
			}
			return ""
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FieldAddr:
			return "field " + fieldKey(x)
		case *ssa.MakeChan:
			for _, ref := range *x.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Val == x {
					if a, ok := st.Addr.(*ssa.Alloc); ok && onlyStore(a) == nil {
						return "local " + a.Name()
					}
				}
			}
			return "local " + x.Name()
		case *ssa.Alloc:
			if s := onlyStore(x); s != nil {
				v = s
				continue
			}
			return "local " + x.Name()
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr, *ssa.FreeVar:
				v = a
			case *ssa.Alloc:
				s := onlyStore(a)
				if s == nil {
					return "local " + a.Name()
				}
				v = s
			default:
				return ""
			}
		default:
			return ""
		}
	}
	return ""
}

// onlyStore is what is stored in a variable that is assigned once, in its own function.
func onlyStore(a *ssa.Alloc) ssa.Value {
	var got ssa.Value
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			if got != nil {
				return nil
			}
			got = st.Val
		}
	}
	return got
}

func isWaitGroup(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "WaitGroup"
}

func isChan(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// passes gives, for a call, the functions it may run and under what name each knows what the caller calls key.
func (p *Prog) passes(c ssa.CallInstruction, key string) map[*ssa.Function][]string {
	out := map[*ssa.Function][]string{}
	cc := c.Common()
	gs := p.callees(c)
	var mc *ssa.MakeClosure
	if m := closureOf(cc.Value); m != nil {
		mc = m
		if g, ok := m.Fn.(*ssa.Function); ok {
			found := false
			for _, h := range gs {
				found = found || h == g
			}
			if !found {
				gs = append(gs, g)
			}
		}
	}
	var as []ssa.Value
	if cc.IsInvoke() {
		as = append([]ssa.Value{cc.Value}, cc.Args...)
	} else {
		as = cc.Args
	}
	for _, g := range gs {
		if len(g.Blocks) == 0 || !p.InRepo[g] || mockMethod(g) {
			continue
		}
		shift := 0
		if !cc.IsInvoke() && cc.StaticCallee() == nil && g.Signature.Recv() != nil {
			shift = 1
		}
		for i, a := range as {
			if held(a) == key && i+shift < len(g.Params) {
				out[g] = append(out[g], fmt.Sprintf("p%d", i+shift))
			}
		}
		if mc != nil && mc.Fn == g {
			for i, b := range mc.Bindings {
				if held(b) == key {
					out[g] = append(out[g], fmt.Sprintf("f%d", i))
				}
			}
		}
		if strings.HasPrefix(key, "field ") && len(out[g]) == 0 && fnPkgPath(g) == fnPkgPath(c.Parent()) {
			out[g] = append(out[g], key)
		}
		// a closure made elsewhere knows the outer variable by its own capture
		if mc == nil && g.Parent() != nil && len(out[g]) == 0 && g.Parent() == c.Parent() {
			for _, b := range c.Parent().Blocks {
				for _, i := range b.Instrs {
					if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == g {
						for k, v := range m.Bindings {
							if held(v) == key {
								out[g] = append(out[g], fmt.Sprintf("f%d", k))
							}
						}
					}
				}
			}
		}
	}
	return out
}

func mockMethod(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	return isMock(fnPkgPath(f)) || rv != nil && strings.Contains(rv.Type().String(), ".Mock")
}

type groupSum struct {
	total   int
	adds    bool
	dones   bool
	broken  bool
	perPass *ssa.BasicBlock // what a pass of the loop that starts the work runs first, when as much is added as it has passes
}

type wgroups struct {
	p    *Prog
	r    *Report
	memo map[string]*groupSum
	seen int
}

func wgCall(c ssa.CallInstruction, key string) string {
	g := c.Common().StaticCallee()
	if g == nil || g.Signature.Recv() == nil || !isWaitGroup(g.Signature.Recv().Type()) {
		return ""
	}
	if held(c.Common().Args[0]) != key {
		return ""
	}
	return g.Name()
}

func isNoReturn(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.Panic:
		return true
	case *ssa.Call:
		n := cname(&x.Call)
		return n == "os.Exit" || strings.HasSuffix(n, ".Fatalf") || strings.HasSuffix(n, ".Fatal")
	}
	return false
}

// sum counts what a function does to a work group: added, started and done.
func (g *wgroups) sum(f *ssa.Function, key string) *groupSum {
	id := fmt.Sprintf("%p %s", f, key)
	if s, ok := g.memo[id]; ok {
		if s == nil {
			return &groupSum{}
		}
		return s
	}
	g.memo[id] = nil
	s := &groupSum{}
	type st struct{ given, rest int } // given: added less started, rest: done here
	in := map[*ssa.BasicBlock]st{f.Blocks[0]: {}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	touched := false
	var problems []func()
	bad := func(i ssa.Instruction, what, detail string) {
		problems = append(problems, func() { g.r.at("balance", i, what, false, detail) })
		s.broken = true
	}
	exits := map[int]ssa.Instruction{}
	done := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if done[b] {
			continue
		}
		done[b] = true
		x := in[b]
		stop := false
		for _, i := range b.Instrs {
			if isNoReturn(i) {
				stop = true
				break
			}
			if ret, ok := i.(*ssa.Return); ok {
				exits[x.given+x.rest] = ret
				if x.given+x.rest > 0 || x.given+x.rest < -1 {
					bad(ret, "all that was added to the work group is done when "+fname(f)+" returns", fmt.Sprintf("%+d", x.given+x.rest))
				}
				continue
			}
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			switch wgCall(c, key) {
			case "Add":
				touched, s.adds = true, true
				n, ok := constInt(c.Common().Args[1])
				if !ok {
					if l := entryOf(f, c.Common().Args[1]); l != nil && s.perPass == nil {
						s.perPass = l
						continue
					}
					bad(i, "a known number of tasks is added to the work group", "the number is not a constant")
					continue
				}
				x.given += int(n)
			case "Done":
				touched, s.dones = true, true
				x.rest--
				if _, isDefer := i.(*ssa.Defer); !isDefer {
					if after := busyAfter(i); after != nil {
						bad(i, fname(f)+" is done only once its work is", "it goes on with "+after.String())
					}
				}
			case "Go":
				touched = true
			case "Wait":
				touched = true
			default:
				n := 0
				first := true
				for h, ks := range g.p.passes(c, key) {
					t := 0
					for _, k := range ks {
						hs := g.sum(h, k)
						t += hs.total
						touched = touched || hs.adds || hs.dones || hs.total != 0
						if _, isGo := i.(*ssa.Go); isGo && hs.adds && hs.total == 0 {
							bad(i, "tasks are added before "+fname(h)+" is started", "it adds them itself, a wait may have ended by then")
						}
					}
					if !first && t != n {
						bad(i, "all that "+fname(f)+" may call here treat the work group alike", fmt.Sprintf("%s leaves it at %+d, others at %+d", fname(h), t, n))
					}
					n, first = t, false
				}
				switch i.(type) {
				case *ssa.Go:
					x.given += n
				default:
					x.rest += n
				}
			}
			if x.given < 0 {
				bad(i, "work is added to the group before it is started", fmt.Sprintf("the group is at %+d here", x.given))
				x.given = 0
			}
		}
		if stop {
			continue
		}
		for _, t := range b.Succs {
			x := x
			if t == s.perPass {
				x.given++
			}
			if y, ok := in[t]; ok {
				if y != x && y.given+y.rest != x.given+x.rest {
					bad(t.Instrs[0], "the work group stands the same on all ways to here in "+fname(f), fmt.Sprintf("%+d or %+d", y.given+y.rest, x.given+x.rest))
				}
				continue
			}
			in[t] = x
			work = append(work, t)
		}
	}
	if len(exits) > 1 {
		var ns []int
		for n := range exits {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		bad(exits[ns[0]], fname(f)+" leaves the work group the same whichever way it returns", fmt.Sprintf("%+d or %+d", ns[0], ns[len(ns)-1]))
	}
	for n := range exits {
		s.total = n
		if s.broken && n != 0 {
			s.total = -1
		}
	}
	if touched {
		g.seen++
		for _, b := range problems {
			b()
		}
		if len(problems) == 0 {
			g.r.ob("balance", fname(f)+" ("+key+")", true, g.p.pos(f.Pos()), "")
		}
	}
	g.memo[id] = s
	return s
}

// entryOf: the first block of the body of a loop that counts up to a number from zero, one by one.
func entryOf(f *ssa.Function, n ssa.Value) *ssa.BasicBlock {
	for _, b := range f.Blocks {
		if most := countsTo(b); most != nil && vkey(most) == vkey(n) && len(b.Succs[0].Preds) == 1 {
			return b.Succs[0]
		}
		if most := countsIn(b); most != nil && vkey(most) == vkey(n) {
			return b
		}
	}
	return nil
}

// countsIn: the first block of a loop that is run for each number from zero to before another.
func countsIn(b *ssa.BasicBlock) (most ssa.Value) {
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for n, e := range phi.Edges {
			br, ok := b.Preds[n].Instrs[len(b.Preds[n].Instrs)-1].(*ssa.If)
			if !ok || br.Block().Succs[0] != b {
				most = nil
				break
			}
			cmp, ok := br.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.LSS || most != nil && vkey(cmp.Y) != vkey(most) {
				most = nil
				break
			}
			most = cmp.Y
			if k, ok := constInt(e); ok && k == 0 {
				if j, ok := constInt(cmp.X); ok && j == 0 {
					continue
				}
			}
			if s, ok := e.(*ssa.BinOp); ok && s == cmp.X && s.Op == token.ADD && s.X == phi {
				if k, ok := constInt(s.Y); ok && k == 1 {
					continue
				}
			}
			most = nil
			break
		}
		if most != nil {
			return most
		}
	}
	return nil
}

// countsTo: a block that ends a loop once a counter, from zero and one by one, gets to a number.
func countsTo(b *ssa.BasicBlock) ssa.Value {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil
	}
	i := cmp.X
	step := int64(0)
	if s, ok := i.(*ssa.BinOp); ok && s.Op == token.ADD {
		// counted before it is compared
		step, _ = constInt(s.Y)
		i = s.X
	}
	phi, ok := i.(*ssa.Phi)
	if !ok || phi.Block() != b {
		return nil
	}
	from, up := false, true
	for _, e := range phi.Edges {
		if k, ok := constInt(e); ok {
			from = k == -step
			continue
		}
		s, ok := e.(*ssa.BinOp)
		if !ok || s.Op != token.ADD || s.X != phi {
			return nil
		}
		k, _ := constInt(s.Y)
		up = up && k == 1
	}
	if from && up && (step == 0 || step == 1) {
		return cmp.Y
	}
	return nil
}

// busyAfter: something other than returning, unlocking or logging may follow.
func busyAfter(i ssa.Instruction) ssa.Instruction {
	for _, b := range i.Parent().Blocks {
		for _, j := range b.Instrs {
			if j == i || !reachableAfter(i, j) {
				continue
			}
			switch x := j.(type) {
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.MapUpdate:
				return j
			case *ssa.Call:
				n := cname(&x.Call)
				if strings.Contains(n, "logrus") || strings.HasSuffix(n, "nlock") || isBuiltin(&x.Call) {
					continue
				}
				return j
			}
		}
	}
	return nil
}

// groupRoots: the work groups a function has in hand.
func groupKeys(f *ssa.Function) []string {
	keys := map[string]bool{}
	for i, q := range f.Params {
		if isWaitGroup(q.Type()) {
			keys[fmt.Sprintf("p%d", i)] = true
		}
	}
	for i, q := range f.FreeVars {
		if isWaitGroup(q.Type()) {
			keys[fmt.Sprintf("f%d", i)] = true
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, a := range c.Common().Args {
				if isWaitGroup(a.Type()) {
					if k := held(a); k != "" {
						keys[k] = true
					}
				}
			}
		}
	}
	return sortedKeys(keys)
}

func checkWaits(p *Prog, r *Report) {
	g := &wgroups{p: p, r: r, memo: map[string]*groupSum{}}
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) || len(f.Blocks) == 0 {
			continue
		}
		for _, k := range groupKeys(f) {
			s := g.sum(f, k)
			if strings.HasPrefix(k, "local ") {
				r.ob("balance", "the work group of "+fname(f), s.total == 0, p.pos(f.Pos()), fmt.Sprintf("it is left at %+d", s.total))
				g.waited(f, k)
			} else if strings.HasPrefix(k, "field ") && s.adds && s.total == 0 {
				g.waited(f, k)
			}
		}
	}
	r.need("balance", "functions that use a work group", g.seen, 60)
}

// waited: what adds to a work group of its own waits for it, unless it fails first.
func (g *wgroups) waited(f *ssa.Function, key string) {
	isAdd := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && wgCall(c, key) == "Add"
	}
	g.waitedAfter(f, key, isAdd, 0)
}

func (g *wgroups) waitedAfter(f *ssa.Function, key string, isAdd func(ssa.Instruction) bool, n int) {
	p, r := g.p, g.r
	isWait := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && wgCall(c, key) == "Wait"
	}
	via := func(i ssa.Instruction) bool {
		if isWait(i) {
			return true
		}
		gs, ok := i.(*ssa.Go)
		if !ok {
			return false
		}
		for h, ks := range p.passes(gs, key) {
			for _, k := range ks {
				w := func(j ssa.Instruction) bool {
					c, ok := j.(ssa.CallInstruction)
					return ok && wgCall(c, k) == "Wait"
				}
				if p.alwaysRuns(h, w) {
					return true
				}
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if !isAdd(i) {
				continue
			}
			ok, missed := p.mustPass(i, nil, 0, 0, via, func(j ssa.Instruction) bool { return isReturn(j) && !surelyFails(j) })
			if o := f.Object(); !ok && n < 3 && o != nil && !o.Exported() && strings.HasPrefix(key, "field ") && len(p.sites[f]) > 0 {
				// it adds work for the functions that call it
				in := map[*ssa.Function]bool{}
				for _, c := range p.sites[f] {
					_, isGo := c.(*ssa.Go)
					if isGo || c.Common().StaticCallee() != f {
						in = nil
						break
					}
					in[c.Parent()] = true
				}
				for caller := range in {
					if g.sum(caller, key).total < 0 {
						// whoever started the caller waits for it, and the work was added before it is done
						continue
					}
					g.waitedAfter(caller, key, func(j ssa.Instruction) bool {
						c, ok := j.(ssa.CallInstruction)
						return ok && c.Common().StaticCallee() == f
					}, n+1)
				}
				if in != nil {
					continue
				}
			}
			d := ""
			if !ok {
				d = "it may return at " + p.ipos(missed) + " without"
			}
			r.at("waited", i, fname(f)+" waits for the work it added", ok, d)
		}
	}
}

func cellOfLoad(v ssa.Value) *ssa.Alloc {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		a, _ := u.X.(*ssa.Alloc)
		return a
	}
	return nil
}

// surelyFails: a return of an error that is made there, or was found to be set.
func surelyFails(i ssa.Instruction) bool {
	r, ok := i.(*ssa.Return)
	if !ok || !returnsErr(i) {
		return false
	}
	v := settled(r.Results[len(r.Results)-1])
	if madeError(v, func(ssa.Value) bool { return false }) {
		return true
	}
	for _, b := range i.Parent().Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || !isNilConst(cmp.X) && !isNilConst(cmp.Y) {
			continue
		}
		if settled(cmp.X) != v && settled(cmp.Y) != v && (cellOfLoad(v) == nil || cellOfLoad(cmp.X) != cellOfLoad(v)) {
			continue
		}
		n := 0
		if cmp.Op == token.EQL {
			n = 1
		}
		t := b.Succs[n]
		same := len(t.Preds) == 1 && t.Dominates(r.Block())
		if a := cellOfLoad(v); a != nil && same {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a && st.Val != v && t.Dominates(st.Block()) {
					same = false
				}
			}
		}
		if same {
			return true
		}
	}
	return false
}

// --- leaving

// edge is the way from one block to another.
type edge struct{ from, to *ssa.BasicBlock }

// selectArm: how the block is reached that runs when state n of a select was chosen.
func selectArm(s *ssa.Select, n int) (arms []edge) {
	for _, ref := range *s.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, u := range *ex.Referrers() {
			cmp, ok := u.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL {
				continue
			}
			k, ok := constInt(cmp.Y)
			if !ok || int(k) != n {
				continue
			}
			for _, w := range *cmp.Referrers() {
				if br, ok := w.(*ssa.If); ok {
					arms = append(arms, edge{br.Block(), br.Block().Succs[0]})
				}
			}
		}
	}
	return arms
}

// comesBack: a block may lead to an instruction. What a variable is set to on the way decides the branches on it.
func comesBack(by edge, to ssa.Instruction) bool {
	return comesBackEnded(by, to, nil)
}

// comesBackEnded is comesBack when a context ended before.
func comesBackEnded(by edge, to ssa.Instruction, ctx ssa.Value) bool {
	seen := map[string]bool{}
	var walk func(b, pred *ssa.BasicBlock, known map[ssa.Value]bool) bool
	walk = func(b, pred *ssa.BasicBlock, known map[ssa.Value]bool) bool {
		if pred != nil {
			next := known
			for _, i := range b.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for n, q := range b.Preds {
					if q != pred {
						continue
					}
					val, ok := constBool(phi.Edges[n])
					if !ok {
						val, ok = known[phi.Edges[n]]
					}
					if old, had := next[phi]; ok == had && old == val {
						break
					}
					m := map[ssa.Value]bool{}
					for k, v := range next {
						if k != phi {
							m[k] = v
						}
					}
					if ok {
						m[phi] = val
					}
					next = m
					break
				}
			}
			known = next
		}
		id := fmt.Sprint(b.Index)
		var ks []string
		for k, v := range known {
			ks = append(ks, fmt.Sprint(" ", k.Name(), v))
		}
		sort.Strings(ks)
		id += strings.Join(ks, "")
		if seen[id] {
			return false
		}
		seen[id] = true
		for _, i := range b.Instrs {
			if i == to {
				return true
			}
			if isNoReturn(i) {
				return false
			}
		}
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cond, want := br.Cond, true
			if not, ok := cond.(*ssa.UnOp); ok && not.Op == token.NOT {
				cond, want = not.X, false
			}
			val, ok := known[cond]
			if cmp, isCmp := cond.(*ssa.BinOp); isCmp && ctx != nil && (isNilConst(cmp.Y) && errOf(cmp.X, ctx) || isNilConst(cmp.X) && errOf(cmp.Y, ctx)) {
				val, ok = cmp.Op == token.NEQ, true
			}
			if ok {
				t := b.Succs[1]
				if val == want {
					t = b.Succs[0]
				}
				return walk(t, b, known)
			}
		}
		for _, t := range b.Succs {
			if walk(t, b, known) {
				return true
			}
		}
		return false
	}
	return walk(by.to, by.from, map[ssa.Value]bool{})
}

// errOf: v is ctx.Err().
func errOf(v, ctx ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Err" && vkey(c.Call.Value) == vkey(ctx)
}

// endsOf: the channel is that of a context or of something else that is closed to end the wait.
func ctxDone(v ssa.Value) *ssa.CallCommon {
	c, ok := v.(*ssa.Call)
	if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Done" {
		return nil
	}
	if !strings.HasSuffix(c.Call.Value.Type().String(), "context.Context") {
		return nil
	}
	return &c.Call
}

// leaves checks the waits in loops: the end of a context ends the loop and there is always an end to wait for.
func (p *Prog) leaves(r *Report) {
	n := 0
	for _, f := range p.Funcs {
		if outsideRuntime(f) && !strings.HasSuffix(fnPkgPath(f), "client/client") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Select)
				if !ok || !s.Blocking {
					continue
				}
				looped := comesBackAfter(s)
				ends, told := false, false
				mine := false
				for _, st := range s.States {
					if c := ctxDone(st.Chan); c != nil && givenContext(c.Value, 0) {
						mine = true
					}
				}
				for k, st := range s.States {
					if st.Dir != types.RecvOnly {
						continue
					}
					arms := selectArm(s, k)
					if len(arms) == 0 {
						// the last state is taken when no other was
						continue
					}
					back := false
					var ctx ssa.Value
					if c := ctxDone(st.Chan); c != nil {
						ctx = c.Value
					}
					for _, a := range arms {
						back = back || comesBackEnded(a, s, ctx)
					}
					if ctx != nil {
						ends = true
						n++
						r.at("leave", s, fname(f)+" stops waiting once its context ends", !back, "it may wait again after that")
						continue
					}
					if !back || p.closedEnds(s, k) {
						ends = true
						told = told || !isTimer(st.Chan)
					}
				}
				if given, kept := hasContext(f); given || kept {
					n++
					r.at("leave", s, fname(f)+" waits for the end of its context too", mine || told && !given, "it is not told when its context ends")
				}
				timed := false
				for _, st := range s.States {
					timed = timed || st.Dir == types.RecvOnly && isTimer(st.Chan)
				}
				if looped || !timed {
					n++
					r.at("leave", s, "something ends the wait in "+fname(f), ends, "no case of the select ends the wait")
				}
			}
		}
	}
	r.need("leave", "waits in loops", n, 60)
}

// givenContext: a context that ends when one given to the function ends.
func givenContext(v ssa.Value, n int) bool {
	if n > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.FieldAddr:
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			some := false
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					some = true
					if !givenContext(st.Val, n+1) {
						return false
					}
				}
			}
			return some
		}
		return givenContext(x.X, n+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != x && !givenContext(e, n+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return givenContext(x.Tuple, n+1)
	case *ssa.MakeInterface:
		return givenContext(x.X, n+1)
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return !strings.HasPrefix(x.Call.Method.Name(), "Background")
		}
		if strings.HasPrefix(cname(&x.Call), "context.") {
			return len(x.Call.Args) > 0 && givenContext(x.Call.Args[0], n+1)
		}
		return true
	}
	return false
}

// hasContext: a function is given a context, or is part of one that is, or that is of something that keeps one.
func hasContext(f *ssa.Function) (given, kept bool) {
	for g := f; g != nil; g = g.Parent() {
		for _, q := range g.Params {
			given = given || strings.HasSuffix(q.Type().String(), "context.Context")
		}
		if rv := g.Signature.Recv(); rv != nil {
			if st, ok := deref(rv.Type()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					kept = kept || strings.HasSuffix(st.Field(i).Type().String(), "context.Context")
				}
			}
		}
	}
	return given, kept
}

// isTimer: the channel of a timer or ticker, or of time.After.
func isTimer(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		return cname(&c.Call) == "time.After" || cname(&c.Call) == "time.Tick"
	}
	return strings.HasPrefix(held(v), "field time.T")
}

func comesBackAfter(s *ssa.Select) bool {
	for _, t := range s.Block().Succs {
		if comesBack(edge{s.Block(), t}, s) {
			return true
		}
	}
	return false
}

// closedEnds: once the received channel is closed the select is not reached again.
func (p *Prog) closedEnds(s *ssa.Select, k int) bool {
	arms := selectArm(s, k)
	var okv ssa.Value
	for _, ref := range *s.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 {
			okv = ex
		}
	}
	if okv == nil {
		return false
	}
	for _, a := range arms {
		if br, ok := a.to.Instrs[len(a.to.Instrs)-1].(*ssa.If); ok && br.Cond == okv && !comesBack(edge{a.to, a.to.Succs[1]}, s) {
			return true
		}
	}
	return false
}

// --- handing over

const manySends = 1 << 20

type sentTo struct {
	p    *Prog
	memo map[string][2]int
}

// most is the most values a function may put in a channel that nobody reads meanwhile.
func (h *sentTo) most(f *ssa.Function, key string) int {
	return h.count(f, key)[0]
}

// count gives the most values waiting at any time in a function, and the most that are when it returns.
func (h *sentTo) count(f *ssa.Function, key string) [2]int {
	id := fmt.Sprintf("%p %s", f, key)
	if n, ok := h.memo[id]; ok {
		return n
	}
	h.memo[id] = [2]int{}
	in := map[*ssa.BasicBlock]int{}
	reached := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	most, left := 0, 0
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		n := in[b]
		for _, i := range b.Instrs {
			if isNoReturn(i) {
				break
			}
			switch x := i.(type) {
			case *ssa.MakeChan:
				if held(x) == key {
					n = 0
				}
			case *ssa.Send:
				if held(x.Chan) == key {
					n++
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.SendOnly && held(st.Chan) == key {
						n++
					}
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && held(x.X) == key && n > 0 && n < manySends {
					n--
				}
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				_, isGo := i.(*ssa.Go)
				peak, stay := 0, 0
				for g, ks := range h.p.passes(c, key) {
					for _, k := range ks {
						m := h.count(g, k)
						peak = max(peak, m[0])
						stay = max(stay, m[1])
						if isGo {
							stay = peak
						}
					}
				}
				most = max(most, min(n+peak, manySends))
				n += stay
			}
			if n > 40 {
				n = manySends
			}
			most = max(most, n)
			if isReturn(i) {
				left = max(left, n)
			}
		}
		for _, t := range b.Succs {
			if !reached[t] || n > in[t] {
				reached[t] = true
				in[t] = n
				work = append(work, t)
			}
		}
	}
	h.memo[id] = [2]int{most, left}
	return h.memo[id]
}

// makers finds where the channel a function knows as key was made; fields gives the fields it was kept in.
func (h *sentTo) makers(f *ssa.Function, key string, busy map[string]bool) (made []*ssa.MakeChan, fields []string) {
	id := fmt.Sprintf("%p %s", f, key)
	if busy[id] {
		return nil, nil
	}
	busy[id] = true
	add := func(g *ssa.Function, v ssa.Value) {
		k := held(v)
		if k == "" {
			fields = append(fields, "? "+v.String())
			return
		}
		m, fs := h.makers(g, k, busy)
		made = append(made, m...)
		fields = append(fields, fs...)
	}
	switch {
	case strings.HasPrefix(key, "field "):
		return nil, []string{key}
	case strings.HasPrefix(key, "local "):
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mk, ok := i.(*ssa.MakeChan); ok && held(mk) == key {
					made = append(made, mk)
				}
			}
		}
		if len(made) == 0 {
			fields = append(fields, "? "+key)
		}
		return made, fields
	}
	for _, g := range h.p.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f && key[0] == 'f' {
					for n, v := range mc.Bindings {
						if fmt.Sprintf("f%d", n) == key {
							add(g, v)
						}
					}
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok || key[0] != 'p' {
					continue
				}
				cc := c.Common()
				for _, t := range h.p.callees(c) {
					if t != f {
						continue
					}
					as := cc.Args
					if cc.IsInvoke() {
						as = append([]ssa.Value{cc.Value}, cc.Args...)
					} else if cc.StaticCallee() == nil && f.Signature.Recv() != nil {
						as = append([]ssa.Value{cc.Value}, cc.Args...)
					}
					for n, v := range as {
						if fmt.Sprintf("p%d", n) == key {
							add(g, v)
						}
					}
				}
			}
		}
	}
	return made, fields
}

// drained: the function that made a channel reads it until it is closed, and it is closed once the senders ended.
func (p *Prog) drained(mk *ssa.MakeChan) bool {
	f, key := mk.Parent(), held(mk)
	closed := map[*ssa.If]bool{}
	reads := false
	for _, b := range f.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		ex, ok := br.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		switch t := ex.Tuple.(type) {
		case *ssa.Select:
			for _, st := range t.States {
				if st.Dir == types.RecvOnly && held(st.Chan) == key {
					closed[br] = true
				}
			}
		case *ssa.UnOp:
			if t.Op == token.ARROW && held(t.X) == key {
				closed[br] = true
			}
		}
		reads = reads || closed[br]
	}
	if !reads {
		return false
	}
	closes := false
	started := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			gs, ok := i.(*ssa.Go)
			if !ok {
				continue
			}
			for g, ks := range p.passes(gs, key) {
				for _, k := range ks {
					if p.alwaysRuns(g, func(j ssa.Instruction) bool {
						c, ok := j.(ssa.CallInstruction)
						return ok && isBuiltin(c.Common()) && c.Common().Value.Name() == "close" && held(c.Common().Args[0]) == k
					}) {
						closes = true
						continue
					}
					started = true
					if leavesUnless(gs, closed) {
						return false
					}
				}
			}
		}
	}
	return closes && started
}

// leavesUnless: the function may return after i without one of the given branches having found its channel closed.
func leavesUnless(i ssa.Instruction, closed map[*ssa.If]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if isReturn(last) {
			return true
		}
		if br, ok := last.(*ssa.If); ok && closed[br] {
			return walk(b.Succs[0])
		}
		for _, t := range b.Succs {
			if walk(t) {
				return true
			}
		}
		return false
	}
	return walk(i.Block())
}

// handsOver checks the sends that nothing but a receiver can end.
func (p *Prog) handsOver(r *Report) {
	h := &sentTo{p: p, memo: map[string][2]int{}}
	n := 0
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Send:
					n++
					p.sent(r, h, x)
				case *ssa.Select:
					if !x.Blocking || outsideRuntime(f) {
						continue
					}
					// a wait that offers a value has another way to end
					for _, st := range x.States {
						if st.Dir == types.SendOnly {
							n++
							r.at("handover", x, fname(f)+" can stop waiting for its value to be taken", hasEnd(p, x), "no case of the select is the end of a context or a quit channel")
						}
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && !outsideRuntime(f) {
						n++
						p.received(r, x)
					}
				}
			}
		}
	}
	r.need("handover", "values handed over", n, 40)
}

func hasEnd(p *Prog, s *ssa.Select) bool {
	for k, st := range s.States {
		if st.Dir != types.RecvOnly {
			continue
		}
		back := false
		for _, a := range selectArm(s, k) {
			back = back || comesBack(a, s)
		}
		if !back || ctxDone(st.Chan) != nil {
			return true
		}
	}
	return false
}

func (p *Prog) sent(r *Report, h *sentTo, x *ssa.Send) {
	f := x.Parent()
	key := held(x.Chan)
	what := fname(f) + " is not left waiting for its value to be taken"
	if key == "" {
		r.at("handover", x, what, false, "it is not known where the channel comes from")
		return
	}
	made, fields := h.makers(f, key, map[string]bool{})
	if len(made) == 0 && len(fields) == 0 {
		r.at("handover", x, what, false, "nothing gives it a channel")
		return
	}
	for _, k := range fields {
		why := p.sized(h, strings.TrimPrefix(k, "field "), x)
		r.at("handover", x, what, why == "", why)
	}
	for _, mk := range made {
		size, ok := constInt(mk.Size)
		most := h.most(mk.Parent(), held(mk))
		good := ok && int64(most) <= size || p.drained(mk)
		r.at("handover", x, what, good, fmt.Sprintf("the channel made at %s holds %d, %s may be sent to it and nothing says they are received", p.ipos(mk), size, upTo(most)))
	}
}

func upTo(n int) string {
	if n >= manySends {
		return "any number"
	}
	return fmt.Sprint(n)
}

// sized: a channel kept in a field has room for all that may be sent to it.
func (p *Prog) sized(h *sentTo, field string, x *ssa.Send) string {
	stores := p.fieldSt[field]
	if strings.HasPrefix(field, "? ") {
		return "it is not known where its channel comes from"
	}
	for _, st := range stores {
		if isNilConst(st.Val) {
			continue
		}
		mk, ok := st.Val.(*ssa.MakeChan)
		if !ok {
			return "the channel in " + field + " comes from elsewhere at " + p.ipos(st)
		}
		// one for all: what is sent to was found in a map, and is taken out of it thereafter
		if size, ok := constInt(mk.Size); ok {
			if size < 1 || !p.takenOut(x) {
				return fmt.Sprintf("the channel in %s holds %d and is there for all", field, size)
			}
			continue
		}
		if !p.oneEach(h, mk, field) {
			return "more may be sent to " + field + " than it was made for at " + p.ipos(mk)
		}
	}
	return ""
}

// takenOut: the owner of the channel is what a map holds, and it is always deleted from it after the send.
func (p *Prog) takenOut(x *ssa.Send) bool {
	m, k := ownerIn(x)
	if m == nil {
		return false
	}
	gone := func(i ssa.Instruction) bool {
		c, ok := i.(*ssa.Call)
		return ok && isBuiltin(&c.Call) && c.Call.Value.Name() == "delete" && held(c.Call.Args[0]) == held(m) && c.Call.Args[1] == k
	}
	ok, _ := p.mustPass(x, nil, 0, 0, gone, isReturn)
	return ok
}

// ownerIn: the map, and its key, that holds the owner of the channel sent to.
func ownerIn(x *ssa.Send) (m, k ssa.Value) {
	ld, ok := x.Chan.(*ssa.UnOp)
	if !ok {
		return nil, nil
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil, nil
	}
	lookup := func(v ssa.Value) *ssa.Lookup {
		if ex, ok := v.(*ssa.Extract); ok {
			v = ex.Tuple
		}
		lk, _ := v.(*ssa.Lookup)
		return lk
	}
	if lk := lookup(fa.X); lk != nil {
		return lk.X, lk.Index
	}
	for _, ref := range *fa.X.Referrers() {
		cmp, ok := ref.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		o := cmp.X
		if o == fa.X {
			o = cmp.Y
		}
		lk := lookup(o)
		if lk == nil {
			continue
		}
		n := 0
		if cmp.Op == token.NEQ {
			n = 1
		}
		for _, u := range *cmp.Referrers() {
			if br, ok := u.(*ssa.If); ok {
				t := br.Block().Succs[n]
				if len(t.Preds) == 1 && t.Dominates(x.Block()) {
					return lk.X, lk.Index
				}
			}
		}
	}
	return nil, nil
}

// oneEach: a channel sized by a field is given at most that many values, one by each of that many started.
func (p *Prog) oneEach(h *sentTo, mk *ssa.MakeChan, field string) bool {
	ld, ok := mk.Size.(*ssa.UnOp)
	if c, isC := mk.Size.(*ssa.Convert); isC {
		ld, ok = c.X.(*ssa.UnOp)
	}
	if !ok {
		return false
	}
	size := held(ld)
	if !strings.HasPrefix(size, "field ") {
		return false
	}
	f := mk.Parent()
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := 0
			for g, ks := range p.passes(c, "field "+field) {
				for _, k := range ks {
					n = max(n, h.most(g, k))
				}
			}
			if n == 0 {
				continue
			}
			if n > 1 {
				return false
			}
			l := outermost(f, i.Block())
			if l == nil {
				continue
			}
			most := countsTo(l.head)
			if most == nil {
				most = countsIn(l.head)
			}
			if most == nil || held(most) != size {
				return false
			}
		}
	}
	return true
}

// received checks a plain receive: it waits for the end of something, or for one that always sends.
func (p *Prog) received(r *Report, x *ssa.UnOp) {
	f := x.Parent()
	what := "what " + fname(f) + " waits for comes"
	if ctxDone(x.X) != nil {
		r.at("handover", x, what, true, "")
		return
	}
	key := held(x.X)
	good := false
	if strings.HasPrefix(key, "local ") || strings.HasPrefix(key, "f") && !strings.HasPrefix(key, "field ") {
		good = p.precededBy(x, func(i ssa.Instruction) bool {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				return false
			}
			some := false
			for g, ks := range p.passes(c, key) {
				for _, k := range ks {
					sends := func(j ssa.Instruction) bool {
						s, ok := j.(*ssa.Send)
						return ok && held(s.Chan) == k
					}
					if _, isGo := i.(*ssa.Go); isGo {
						if !p.alwaysRuns(g, sends) {
							return false
						}
					} else if ok, _ := p.mustPass(g.Blocks[0].Instrs[0], nil, 0, 0, sends, func(j ssa.Instruction) bool { return isReturn(j) && !returnsErr(j) }); !ok {
						return false
					}
					some = true
				}
			}
			return some
		})
	}
	r.at("handover", x, what, good, "nothing always sends what it waits for")
}

// --- closing

// closes: a channel is closed once nothing can send to it any more.
func (p *Prog) closes(r *Report) {
	h := &sentTo{p: p, memo: map[string][2]int{}}
	type origin struct {
		mk    *ssa.MakeChan
		field string
	}
	origins := func(f *ssa.Function, v ssa.Value) map[origin]bool {
		out := map[origin]bool{}
		k := held(v)
		if k == "" {
			return out
		}
		made, fields := h.makers(f, k, map[string]bool{})
		for _, m := range made {
			out[origin{mk: m}] = true
		}
		for _, fd := range fields {
			out[origin{field: fd}] = true
		}
		return out
	}
	given := map[origin]bool{}  // to a NATS subscription
	sentTo := map[origin]bool{} // by ours
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Send:
					for o := range origins(f, x.Chan) {
						sentTo[o] = true
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly {
							for o := range origins(f, st.Chan) {
								sentTo[o] = true
							}
						}
					}
				case ssa.CallInstruction:
					n := cname(x.Common())
					if strings.HasSuffix(n, "nats.Conn).ChanSubscribe") || strings.HasSuffix(n, "nats.Conn).ChanQueueSubscribe") {
						for _, a := range x.Common().Args {
							if isChan(a.Type()) {
								for o := range origins(f, a) {
									given[o] = true
								}
							}
						}
					}
				}
			}
		}
	}
	r.need("close", "channels given to NATS", len(given), 2)
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || !isBuiltin(c.Common()) || c.Common().Value.Name() != "close" {
					continue
				}
				n++
				why := ""
				for o := range origins(f, c.Common().Args[0]) {
					switch {
					case given[o]:
						if !p.afterUnsubscribe(i) {
							why = "NATS may still deliver into it, that panics"
						}
					case sentTo[o]:
						waited := p.precededBy(i, func(j ssa.Instruction) bool {
							w, ok := j.(ssa.CallInstruction)
							return ok && strings.HasSuffix(cname(w.Common()), "sync.WaitGroup).Wait")
						})
						if !waited {
							why = "those that send to it may not be done, that panics"
						}
					}
				}
				r.at("close", i, "nothing sends to what "+fname(f)+" closes", why == "", why)
			}
		}
	}
	r.need("close", "channels closed", n, 5)
}

// ownOnly: what serves a subscription is started once there is one, and ends that one, not whatever has its name now.
func (p *Prog) ownOnly(r *Report) {
	n := 0
	for _, f := range p.Funcs {
		var sub *ssa.Call
		calls(f, func(c ssa.CallInstruction) {
			x, ok := c.(*ssa.Call)
			if ok && (strings.HasSuffix(cname(&x.Call), "nats.Conn).ChanSubscribe") || strings.HasSuffix(cname(&x.Call), "nats.Conn).ChanQueueSubscribe")) && fnPkgPath(f) == modPath+"/choria" {
				sub = x
			}
		})
		if sub == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				gs, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				n++
				done := sub.Block() != gs.Block() && sub.Block().Dominates(gs.Block()) || p.precededBy(gs, func(j ssa.Instruction) bool { return j == sub })
				r.at("own", gs, "what serves a subscription of "+fname(f)+" is started once it is made", done, "its end could find no subscription to end")
				for _, g := range p.callees(gs) {
					byName := ""
					calls(g, func(c ssa.CallInstruction) {
						if cname(c.Common()) == "(*choria.Connection).Unsubscribe" {
							byName = p.ipos(c.(ssa.Instruction))
						}
					})
					r.at("own", gs, "what serves a subscription of "+fname(f)+" ends only that one", byName == "", "at "+byName+" it ends whichever has its name by then")
				}
			}
		}
	}
	r.need("own", "servers of subscriptions", n, 2)
}

// afterUnsubscribe: it only happens once a quit channel was read that is only written after an unsubscribe.
func (p *Prog) afterUnsubscribe(i ssa.Instruction) bool {
	for _, b := range i.Parent().Blocks {
		for _, j := range b.Instrs {
			s, ok := j.(*ssa.Select)
			if !ok {
				continue
			}
			for k, st := range s.States {
				if st.Dir != types.RecvOnly || !strings.HasPrefix(held(st.Chan), "field ") {
					continue
				}
				in := false
				for _, a := range selectArm(s, k) {
					in = in || a.to.Dominates(i.Block()) && len(a.to.Preds) == 1
				}
				if in && p.unsubscribedFirst(held(st.Chan)) {
					return true
				}
			}
		}
	}
	return false
}

// unsubscribedFirst: all that is sent to a field is sent after a subscription was ended, or there was none.
func (p *Prog) unsubscribedFirst(key string) bool {
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Send)
				if !ok || held(x.Chan) != key {
					continue
				}
				n++
				seen := map[*ssa.BasicBlock]bool{}
				var without func(b *ssa.BasicBlock) bool
				without = func(b *ssa.BasicBlock) bool {
					if seen[b] {
						return false
					}
					seen[b] = true
					for _, j := range b.Instrs {
						if j == x {
							return true
						}
						if c, ok := j.(*ssa.Call); ok && strings.HasSuffix(cname(&c.Call), "nats.Subscription).Unsubscribe") {
							return false
						}
					}
					skip := -1
					if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if cmp, ok := br.Cond.(*ssa.BinOp); ok && (isNilConst(cmp.X) || isNilConst(cmp.Y)) && strings.HasSuffix(cmp.X.Type().String(), "Subscription") {
							skip = 0
							if cmp.Op == token.NEQ {
								skip = 1
							}
						}
					}
					for k, t := range b.Succs {
						if k != skip && without(t) {
							return true
						}
					}
					return false
				}
				if without(f.Blocks[0]) {
					return false
				}
			}
		}
	}
	return n > 0
}

func init() {
	register(&Check{ID: "C04", Level: "other",
		Rule:        "along every path: (balance) a work group is added to before the work is started, work is done once and after all else, and every function leaves the group the same whichever way it returns, the ones that made it at zero; (waited) what adds work to a group of its own waits for it unless it fails before any was started; (leave) a wait of a function that is given a context is told when it ends and is not entered again then, and every wait has a case that ends it; (handover) what is sent without another way out fits the channel, is always drained, or is taken out first, and what is waited for without another way out is always sent; (close) nothing can send to a channel once it is closed, one given to NATS only after it was unsubscribed; (own) what serves a subscription is started once it is made and ends only that one",
		Explanation: "Counts the state of each work group through calls, closures and started functions (a constant per function, block by block), follows every case of every select to see whether the wait may be entered again (variables set on the way decide the branches on them), and bounds the number of values a channel may have to hold by the most that are sent less those received along any path, through all that the channel is passed to.",
		Run:         func(p *Prog, r *Report) { checkWaits(p, r); p.leaves(r); p.handsOver(r); p.closes(r); p.ownOnly(r) }})
}
