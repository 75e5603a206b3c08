package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lower bounds of the length of slices and strings, from how a value is made and from the tests that dominate
// the place it is used.

type lens struct {
	P     *Prog
	busy  map[lensAt]bool
	frame *lensFrame
	depth int
	to    *ssa.BasicBlock // with an instruction that ends a block: the way taken from there
	kills map[*ssa.Function]map[string]bool
}

type lensAt struct {
	v  ssa.Value
	fr *lensFrame
}

// lensFrame is the call through which a function was entered.
type lensFrame struct {
	call *ssa.Call
	up   *lensFrame
}

const anyLen = 1 << 20

func newLens(p *Prog) *lens {
	return &lens{P: p, busy: map[lensAt]bool{}, kills: map[*ssa.Function]map[string]bool{}}
}

// vkey names a value by how it is obtained, so that two loads of the same place have the same name.
func vkey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + vkey(x.X)
		}
	case *ssa.FieldAddr:
		return "&" + vkey(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.Field:
		return vkey(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.IndexAddr:
		return "&" + vkey(x.X) + "[" + vkey(x.Index) + "]"
	case *ssa.Index:
		return vkey(x.X) + "[" + vkey(x.Index) + "]"
	case *ssa.Lookup:
		if !x.CommaOk {
			return vkey(x.X) + "[" + vkey(x.Index) + "]"
		}
	case *ssa.Const:
		return x.String()
	case *ssa.Global:
		return x.String()
	case *ssa.Convert:
		return vkey(x.X)
	case *ssa.ChangeType:
		return vkey(x.X)
	case *ssa.Call:
		if pureAccessor(&x.Call) {
			var as []string
			if x.Call.IsInvoke() {
				as = append(as, vkey(x.Call.Value))
			}
			for _, a := range x.Call.Args {
				as = append(as, vkey(a))
			}
			return mname(&x.Call) + "(" + strings.Join(as, ",") + ")"
		}
	case *ssa.FreeVar:
		return "free:" + x.Name()
	}
	return fmt.Sprintf("%s/%p", v.Name(), v)
}

// pureAccessor: calls that give the same every time, as far as lengths are concerned.
func pureAccessor(c *ssa.CallCommon) bool {
	n := mname(c)
	if strings.HasPrefix(n, "Set") || strings.HasPrefix(n, "New") || strings.HasPrefix(n, "Next") || strings.HasPrefix(n, "Read") {
		return false
	}
	sig := c.Signature()
	if sig.Results().Len() != 1 {
		return false
	}
	if c.IsInvoke() {
		return sig.Params().Len() == 0
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if nameIn(cname(c), "strings.TrimSpace", "bytes.TrimSpace", "strings.ToLower", "strings.ToUpper") {
		return true
	}
	return f.Signature.Recv() != nil && sig.Params().Len() == 0
}

func (l *lens) min(v ssa.Value, at ssa.Instruction) int {
	n := l.made(v, at)
	if m := l.tested(v, at); m > n {
		n = m
	}
	return n
}

// tested: what is said about the length of v on every way to an instruction, by the tests made and by what is
// stored where v is loaded from.
func (l *lens) tested(v ssa.Value, at ssa.Instruction) int {
	n := l.walk(v, vkey(v), keyRoots(v), at.Block(), indexIn(at), map[*ssa.BasicBlock]bool{})
	if n >= anyLen {
		return 0
	}
	return n
}

func (l *lens) testedEnd(v ssa.Value, b *ssa.BasicBlock) int {
	return l.tested(v, b.Instrs[len(b.Instrs)-1])
}

func indexIn(at ssa.Instruction) int {
	for n, i := range at.Block().Instrs {
		if i == at {
			return n
		}
	}
	return 0
}

// keyRoots lists the values a key is made from: when one of them is computed anew the key names something else.
func keyRoots(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				walk(x.X)
				return
			}
		case *ssa.FieldAddr:
			walk(x.X)
			return
		case *ssa.Field:
			walk(x.X)
			return
		case *ssa.IndexAddr:
			walk(x.X)
			walk(x.Index)
			return
		case *ssa.Index:
			walk(x.X)
			walk(x.Index)
			return
		case *ssa.Lookup:
			if !x.CommaOk {
				walk(x.X)
				walk(x.Index)
				return
			}
		case *ssa.Convert:
			walk(x.X)
			return
		case *ssa.ChangeType:
			walk(x.X)
			return
		case *ssa.Call:
			if pureAccessor(&x.Call) {
				if x.Call.IsInvoke() {
					walk(x.Call.Value)
				}
				for _, a := range x.Call.Args {
					walk(a)
				}
				return
			}
		}
		out[v] = true
	}
	walk(v)
	return out
}

func (l *lens) walk(v ssa.Value, k string, roots map[ssa.Value]bool, b *ssa.BasicBlock, upto int, seen map[*ssa.BasicBlock]bool) int {
	for j := upto - 1; j >= 0; j-- {
		i := b.Instrs[j]
		if x, ok := i.(ssa.Value); ok && roots[x] {
			return 0
		}
		switch x := i.(type) {
		case *ssa.Store:
			if "*"+vkey(x.Addr) == k {
				return l.min(x.Val, x)
			}
		case *ssa.Call:
			if l.shrinks(x, v) {
				return 0
			}
		}
	}
	if seen[b] {
		return anyLen
	}
	seen[b] = true
	defer delete(seen, b)
	if len(b.Preds) == 0 {
		return 0
	}
	best := anyLen
	for _, p := range b.Preds {
		n := l.edge(p, b, v, k)
		if m := l.walk(v, k, roots, p, len(p.Instrs), seen); m > n {
			n = m
		}
		if n < best {
			best = n
		}
		if best == 0 {
			break
		}
	}
	return best
}

// shrinks: the call may store something else in the field v is loaded from.
func (l *lens) shrinks(c *ssa.Call, v ssa.Value) bool {
	f := loadedField(v)
	if f == "" {
		return false
	}
	for _, g := range l.P.callees(c) {
		if l.P.InRepo[g] && l.fieldStores(g)[f] {
			return true
		}
	}
	return false
}

// fieldStores lists the fields a function and what it calls store in, other than to add to them.
func (l *lens) fieldStores(g *ssa.Function) map[string]bool {
	if m, ok := l.kills[g]; ok {
		return m
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || !l.P.InRepo[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if c, isC := x.Val.(*ssa.Call); isC {
							if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
								continue
							}
						}
						if _, fresh := fa.X.(*ssa.Alloc); fresh {
							continue
						}
						out[fieldKey(fa)] = true
					}
				case *ssa.Call:
					for _, h := range l.P.callees(x) {
						visit(h)
					}
				}
			}
		}
	}
	visit(g)
	l.kills[g] = out
	return out
}

// says: the least length v has when cond has outcome o.
func (l *lens) says(cond ssa.Value, o Outcome, v ssa.Value, k string, b *ssa.BasicBlock) int {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, o = u.X, o.flip()
	}
	if ph, ok := cond.(*ssa.Phi); ok {
		// a && b: true only through the last edge
		best := -1
		for i, e := range ph.Edges {
			c, isC := constBool(e)
			if isC && c != (o == True) {
				continue
			}
			pr := ph.Block().Preds[i]
			m := l.testedEnd(v, pr)
			if !isC {
				if x := l.says(e, o, v, k, pr); x > m {
					m = x
				}
			} else if x := l.edge(pr, ph.Block(), v, k); x > m {
				m = x
			}
			if best < 0 || m < best {
				best = m
			}
		}
		if best < 0 {
			return 0
		}
		return best
	}
	if c, ok := cond.(*ssa.Call); ok && o == True {
		switch cname(&c.Call) {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			if vkey(c.Call.Args[0]) == k {
				if s, isS := constString(c.Call.Args[1]); isS {
					return len(s)
				}
			}
		}
		return 0
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	op := bo.Op
	x, y := bo.X, bo.Y
	// a slice that is not nil: enough for those that are nil or not empty
	if isNilConst(y) || isNilConst(x) {
		if isNilConst(x) {
			x = y
		}
		if vkey(x) == k && ((op == token.NEQ) == (o == True)) {
			return l.nonNil(v)
		}
		return 0
	}
	// a string that is not empty
	if s, isS := constString(y); isS && vkey(x) == k && (op == token.EQL || op == token.NEQ) {
		if (op == token.EQL) == (o == True) {
			return len(s)
		}
		if s == "" {
			return 1
		}
		return 0
	}
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	if lengthOf(y) != nil && lengthOf(x) == nil {
		x, y, op = y, x, flip[op]
	}
	if n, isN := constInt(y); isN && op == token.GEQ && o == True && n >= 0 && l.indexOf(x, k, map[ssa.Value]bool{}) {
		return int(n) + 1 // an index that was found in it, or a negative number
	}
	w := lengthOf(x)
	if (w == nil || vkey(w) != k) && !l.counts(x, v) {
		return 0
	}
	n64, isN := constInt(y)
	if !isN {
		return 0
	}
	n := int(n64)
	if o == False {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	switch op {
	case token.GTR:
		return n + 1
	case token.GEQ, token.EQL:
		return n
	case token.NEQ:
		if n == 0 {
			return 1
		}
		if n == 1 && l.atLeast(v) == 1 {
			return 2
		}
	}
	return 0
}

func (l *lens) atLeast(v ssa.Value) int {
	if i, ok := v.(ssa.Instruction); ok {
		return l.made(v, i)
	}
	return 0
}

func (l *lens) edge(from, to *ssa.BasicBlock, v ssa.Value, k string) int {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	o := True
	if from.Succs[1] == to {
		o = False
	}
	return l.says(iff.Cond, o, v, k, from)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// lengthOf gives what v is the length of.
func lengthOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

// indexOf: v is an index of a loop over the thing k names, or a negative constant.
func (l *lens) indexOf(v ssa.Value, k string, busy map[ssa.Value]bool) bool {
	if busy[v] {
		return true
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := constInt(x)
		return ok && n < 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !l.indexOf(e, k, busy) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		// the next index of a loop that runs while it is less than the length
		if x.Op != token.ADD {
			return false
		}
		for _, ref := range *x.Referrers() {
			if c, ok := ref.(*ssa.BinOp); ok && c.Op == token.LSS && c.X == v {
				if w := lengthOf(c.Y); w != nil && vkey(w) == k {
					return true
				}
			}
		}
	}
	return false
}

// counts: x is how many of the things v lists there are, both asked from the same thing.
func (l *lens) counts(x, v ssa.Value) bool {
	cx, _ := callOf(x)
	cv, _ := callOf(v)
	if cx == nil || cv == nil || len(cx.Call.Args)+len(cv.Call.Args) > 2 {
		return false
	}
	rx, rv := recvOf(&cx.Call), recvOf(&cv.Call)
	if rx == nil || rv == nil || vkey(rx) != vkey(rv) {
		return false
	}
	fx := l.lengthField(cx)
	return fx != "" && fx == l.listField(cv)
}

func recvOf(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() {
		return c.Value
	}
	if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
		return c.Args[0]
	}
	return nil
}

// lengthField: the field of its receiver the function called gives the length of.
func (l *lens) lengthField(c *ssa.Call) string {
	return l.sameOf(c, func(v ssa.Value) string {
		w := lengthOf(v)
		if w == nil {
			return ""
		}
		return loadedField(w)
	})
}

// listField: the field of its receiver the function called gives as many elements as.
func (l *lens) listField(c *ssa.Call) string {
	return l.sameOf(c, func(v ssa.Value) string {
		if m, ok := v.(*ssa.MakeSlice); ok {
			if w := lengthOf(m.Len); w != nil {
				return loadedField(w)
			}
		}
		return loadedField(v)
	})
}

func (l *lens) sameOf(c *ssa.Call, what func(v ssa.Value) string) string {
	out := ""
	for _, g := range l.P.callees(c) {
		if isMock(fnPkgPath(g)) || strings.Contains(fname(g), ".Mock") {
			continue
		}
		if !l.P.InRepo[g] || len(g.Blocks) == 0 {
			return ""
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			f := what(ret.Results[0])
			if f == "" || (out != "" && f != out) {
				return ""
			}
			out = f
		}
	}
	return out
}

// holds: the least length of a field of a thing.
func (l *lens) holds(v ssa.Value, field string, at ssa.Instruction) int {
	if l.depth > 12 {
		return 0
	}
	l.depth++
	defer func() { l.depth-- }()
	// a test of its count on the way here
	n := l.walkCount(v, field, at)
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return max(n, l.holds(x.X, field, at))
	case *ssa.ChangeInterface:
		return max(n, l.holds(x.X, field, at))
	case *ssa.Phi:
		best := -1
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			old := l.to
			l.to = x.Block()
			m := l.holds(e, field, pr.Instrs[len(pr.Instrs)-1])
			l.to = old
			if k := l.edgeCount(pr, x.Block(), e, field); k > m {
				m = k
			}
			if best < 0 || m < best {
				best = m
			}
		}
		return max(n, best)
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok || fieldKey(fa) != field {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					return max(n, l.min(st.Val, st))
				}
			}
		}
	case *ssa.Extract, *ssa.Call:
		c, idx := callOf(v)
		if c == nil {
			return n
		}
		return max(n, l.returned(c, idx, at, func(ret ssa.Value, at ssa.Instruction) int { return l.holds(ret, field, at) }))
	}
	return n
}

// edgeCount, walkCount: what tests of how many there are say.
func (l *lens) edgeCount(from, to *ssa.BasicBlock, v ssa.Value, field string) int {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	o := True
	if from.Succs[1] == to {
		o = False
	}
	return l.saysCount(iff.Cond, o, v, field)
}

func (l *lens) saysCount(cond ssa.Value, o Outcome, v ssa.Value, field string) int {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, o = u.X, o.flip()
	}
	if ph, ok := cond.(*ssa.Phi); ok {
		best := -1
		for i, e := range ph.Edges {
			c, isC := constBool(e)
			if isC && c != (o == True) {
				continue
			}
			pr := ph.Block().Preds[i]
			m := 0
			if !isC {
				m = l.saysCount(e, o, v, field)
			} else {
				m = l.edgeCount(pr, ph.Block(), v, field)
			}
			if best < 0 || m < best {
				best = m
			}
		}
		return max(best, 0)
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	c, _ := callOf(bo.X)
	if c == nil || recvOf(&c.Call) == nil || vkey(recvOf(&c.Call)) != vkey(v) || l.lengthField(c) != field {
		return 0
	}
	n, isN := constInt(bo.Y)
	if !isN {
		return 0
	}
	return atLeastWhen(bo.Op, int(n), o)
}

func (l *lens) walkCount(v ssa.Value, field string, at ssa.Instruction) int {
	best := 0
	for d := at.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(d.Preds) != 1 {
			continue
		}
		if n := l.edgeCount(p, d, v, field); n > best {
			best = n
		}
	}
	return best
}

// returned: the least over what a call may return, when it did not fail if that was looked at.
func (l *lens) returned(c *ssa.Call, idx int, at ssa.Instruction, of func(ret ssa.Value, at ssa.Instruction) int) int {
	gs := l.P.callees(c)
	if l.depth > 12 {
		return 0
	}
	good := errLooked(c, at, l.to)
	best := -1
	for _, g := range gs {
		if !l.P.InRepo[g] || len(g.Blocks) == 0 {
			return 0
		}
		old := l.frame
		if c.Call.StaticCallee() == g {
			l.frame = &lensFrame{c, old}
		}
		l.depth++
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(ret.Results) || b == g.Recover {
				continue
			}
			if n := len(ret.Results); n > 1 && isErr(ret.Results[n-1].Type()) && idx != n-1 {
				e := ret.Results[n-1]
				if isNilConst(e) {
					// a success
				} else if isNilConst(ret.Results[idx]) || l.zero(ret.Results[idx]) {
					continue // returned with an error: not used
				} else if good && failedFor(e, ret) {
					continue
				}
			}
			n := of(ret.Results[idx], ret)
			if best < 0 || n < best {
				best = n
			}
		}
		l.depth--
		l.frame = old
	}
	if best > 0 && best < anyLen {
		return best
	}
	return 0
}

// errLooked: the call is known not to have failed here.
func errLooked(c *ssa.Call, at ssa.Instruction, to *ssa.BasicBlock) bool {
	says := func(p, d *ssa.BasicBlock) bool {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isErr(bo.X.Type()) || !isNilConst(bo.Y) {
			return false
		}
		cc, _ := callOf(bo.X)
		return cc == c && ((bo.Op == token.EQL) == (p.Succs[0] == d))
	}
	if iff, ok := at.(*ssa.If); ok && to != nil && (iff.Block().Succs[0] == to) != (iff.Block().Succs[1] == to) && says(iff.Block(), to) {
		return true
	}
	for d := at.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p != nil && len(d.Preds) == 1 && says(p, d) {
			return true
		}
	}
	return false
}

// failedFor: the error returned here is never nil.
func failedFor(e ssa.Value, at ssa.Instruction) bool {
	if madeError(e, func(ssa.Value) bool { return false }) {
		return true
	}
	for d := at.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(d.Preds) != 1 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if ok && bo.X == e && isNilConst(bo.Y) && ((bo.Op == token.NEQ) == (p.Succs[0] == d)) {
			return true
		}
	}
	return false
}

// atLeastWhen: the least n with "n op c" having the outcome.
func atLeastWhen(op token.Token, c int, o Outcome) int {
	if o == False {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	switch op {
	case token.GTR:
		return c + 1
	case token.GEQ, token.EQL:
		return c
	case token.NEQ:
		if c == 0 {
			return 1
		}
	}
	return 0
}

// nonNil: the least length of v when it is not nil.
func (l *lens) nonNil(v ssa.Value) int {
	if _, ok := v.Type().Underlying().(*types.Pointer); ok {
		return 1
	}
	c, _ := callOf(v)
	if c == nil {
		return 0
	}
	switch mname(&c.Call) {
	case "FindStringSubmatch", "FindSubmatch", "FindStringSubmatchIndex":
		return 1 + groups(l.P, recvArg(&c.Call))
	case "FindStringIndex", "FindIndex":
		return 2
	case "FindAllString", "FindAllStringSubmatch", "FindAllStringIndex":
		return 1
	}
	return 0
}

// groups counts the groups of a regular expression that is known here.
func groups(p *Prog, re ssa.Value) int {
	best := -1
	for _, s := range regexSources(p, re) {
		n := 0
		if rx, err := syntax.Parse(s, syntax.Perl); err == nil {
			n = rx.MaxCap()
		}
		if best < 0 || n < best {
			best = n
		}
	}
	if best < 0 {
		return 0
	}
	return best
}

// regexSources lists the texts a regular expression may have been compiled from; nil when not known.
func regexSources(p *Prog, re ssa.Value) []string {
	var out []string
	known := true
	fl := &Flow{P: p, NoCallers: true, NoDescend: true}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		for _, o := range fl.From(v) {
			if c, _ := callOf(o.V); c != nil && nameIn(cname(&c.Call), "regexp.MustCompile", "regexp.Compile") {
				if s, ok := constString(c.Call.Args[0]); ok {
					out = append(out, s)
					continue
				}
			}
			known = false
		}
	}
	for _, o := range fl.From(re) {
		if g, ok := o.V.(*ssa.UnOp); ok {
			if gl, isG := g.X.(*ssa.Global); isG {
				vs := p.globalStores(gl)
				if len(vs) == 0 {
					known = false
				}
				for _, v := range vs {
					add(v)
				}
				continue
			}
		}
		if c, _ := callOf(o.V); c != nil {
			add(o.V)
			continue
		}
		known = false
	}
	if !known {
		return nil
	}
	return out
}

// globalStores lists what is stored in a global, anywhere.
func (p *Prog) globalStores(g *ssa.Global) []ssa.Value {
	var out []ssa.Value
	see := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && st.Addr == g {
					out = append(out, st.Val)
				}
			}
		}
	}
	for _, m := range g.Pkg.Members {
		if f, ok := m.(*ssa.Function); ok {
			see(f)
			for _, a := range f.AnonFuncs {
				see(a)
			}
		}
	}
	return out
}

// made: the least length of a value from how it is made.
func (l *lens) made(v ssa.Value, at ssa.Instruction) int {
	me := lensAt{v, l.frame}
	if l.busy[me] {
		return anyLen // a cycle adds nothing to the least
	}
	l.busy[me] = true
	defer delete(l.busy, me)
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constString(x); ok {
			return len(s)
		}
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure, *ssa.MakeMap, *ssa.Function, *ssa.Global:
		return 1 // a pointer that is not nil
	case *ssa.MakeSlice:
		if n, ok := constInt(x.Len); ok {
			return int(n)
		}
		if w := lengthOf(x.Len); w != nil {
			return l.min(w, at)
		}
	case *ssa.Convert:
		if b, ok := x.Type().Underlying().(*types.Slice); ok {
			if e, ok := b.Elem().Underlying().(*types.Basic); ok && (e.Kind() == types.Byte || e.Kind() == types.Int32) {
				n := l.min(x.X, at)
				if n > 0 && e.Kind() == types.Int32 {
					return 1
				}
				return n
			}
		}
		return l.min(x.X, at)
	case *ssa.ChangeType:
		return l.min(x.X, at)
	case *ssa.Slice:
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
			return int(a.Len())
		}
		lo := int64(0)
		if x.Low != nil {
			n, ok := constInt(x.Low)
			if !ok {
				return 0
			}
			lo = n
		}
		if x.High != nil {
			if n, ok := constInt(x.High); ok {
				return int(n - lo)
			}
			return 0
		}
		n := l.min(x.X, at) - int(lo)
		if n > 0 {
			return n
		}
	case *ssa.Phi:
		best := -1
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			old := l.to
			l.to = x.Block()
			n := l.min(e, pr.Instrs[len(pr.Instrs)-1])
			l.to = old
			if m := l.edge(pr, x.Block(), e, vkey(e)); m > n {
				n = m
			}
			if best < 0 || n < best {
				best = n
			}
		}
		if best > 0 && best < anyLen {
			return best
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return 0
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if nameIn(short(g.String()), "os.Args") {
				return 1
			}
			best := -1
			for _, s := range l.P.globalStores(g) {
				n := l.atLeast(s)
				if best < 0 || n < best {
					best = n
				}
			}
			if best > 0 && !g.Object().Exported() {
				return best
			}
			return 0
		}
		if knownFilled[loadedField(x)] {
			return 1
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return l.element(ia.X, at)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			// a variable: all that is ever stored in it
			best := -1
			(&Flow{P: l.P}).stores(al, func(st *ssa.Store) {
				n := l.min(st.Val, st)
				if best < 0 || n < best {
					best = n
				}
			}, 0)
			if best > 0 {
				return best
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return l.call(c, x.Index, at)
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				return l.element(r.X, at)
			}
		}
	case *ssa.Call:
		return l.call(x, 0, at)
	case *ssa.Parameter:
		return l.param(x)
	case *ssa.Field:
		if knownFilled[loadedField(x)] {
			return 1
		}
	}
	return 0
}

// element: the least length of the elements of a slice of slices.
func (l *lens) element(v ssa.Value, at ssa.Instruction) int {
	if c, _ := callOf(v); c != nil {
		switch mname(&c.Call) {
		case "FindAllStringSubmatch", "FindAllSubmatch":
			return 1 + groups(l.P, recvArg(&c.Call))
		case "FindAllStringIndex", "FindAllIndex":
			return 2
		}
	}
	if ph, ok := v.(*ssa.Phi); ok {
		best := -1
		for _, e := range ph.Edges {
			n := l.element(e, at)
			if best < 0 || n < best {
				best = n
			}
		}
		if best > 0 {
			return best
		}
	}
	return 0
}

func (l *lens) call(c *ssa.Call, idx int, at ssa.Instruction) int {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && len(c.Call.Args) == 2 {
			return l.made(c.Call.Args[0], at) + l.made(c.Call.Args[1], at)
		}
		return 0
	}
	switch cname(&c.Call) {
	case "strings.Split", "strings.SplitAfter", "bytes.Split":
		if s, ok := constString(c.Call.Args[1]); ok && s != "" {
			n := 1
			// an earlier test that it has the separator
			for _, has := range []string{"strings.Contains"} {
				if l.containsTest(c.Call.Args[0], s, c.Block(), has) {
					n = 2
				}
			}
			return n
		}
	case "strings.SplitN":
		if s, ok := constString(c.Call.Args[1]); ok && s != "" {
			if n, isN := constInt(c.Call.Args[2]); isN && n != 0 {
				if n > 1 && l.containsTest(c.Call.Args[0], s, c.Block(), "strings.Contains") {
					return 2
				}
				return 1
			}
		}
	case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindSubmatch":
		// a test that it matches came before
		want := vkey(c.Call.Args[1])
		for d := c.Block(); d != nil; d = d.Idom() {
			p := d.Idom()
			if p == nil {
				break
			}
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || len(d.Preds) != 1 {
				continue
			}
			o := True
			if p.Succs[1] == d {
				o = False
			}
			cond := iff.Cond
			for {
				u, isN := cond.(*ssa.UnOp)
				if !isN || u.Op != token.NOT {
					break
				}
				cond, o = u.X, o.flip()
			}
			m, ok := cond.(*ssa.Call)
			if ok && o == True && nameIn(cname(&m.Call), "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match") && vkey(m.Call.Args[1]) == want && vkey(recvArg(&m.Call)) == vkey(recvArg(&c.Call)) {
				return 1 + groups(l.P, recvArg(&c.Call))
			}
		}
	}
	if r := recvOf(&c.Call); r != nil && len(c.Call.Args) < 2 {
		if f := l.listField(c); f != "" {
			if n := l.holds(r, f, at); n > 0 {
				return n
			}
		}
	}
	// what a function of the repository returns
	return l.returned(c, idx, at, func(ret ssa.Value, at ssa.Instruction) int { return l.min(ret, at) })
}

func (l *lens) zero(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := deref(sl.X.Type()).Underlying().(*types.Array)
	return ok && a.Len() == 0
}

func (l *lens) containsTest(s ssa.Value, sep string, b *ssa.BasicBlock, fn string) bool {
	k := vkey(s)
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		o := True
		if p.Succs[1] == d {
			o = False
		}
		cond := iff.Cond
		for {
			u, isN := cond.(*ssa.UnOp)
			if !isN || u.Op != token.NOT {
				break
			}
			cond, o = u.X, o.flip()
		}
		c, ok := cond.(*ssa.Call)
		if ok && o == True && cname(&c.Call) == fn && vkey(c.Call.Args[0]) == k {
			if x, isS := constString(c.Call.Args[1]); isS && x == sep {
				return true
			}
		}
	}
	return false
}

// param: the least length of what callers pass.
func (l *lens) param(x *ssa.Parameter) int {
	f := x.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == x {
			idx = i
		}
	}
	if l.frame != nil && l.frame.call.Call.StaticCallee() == f {
		old := l.frame
		l.frame = old.up
		n := l.min(old.call.Call.Args[idx], old.call)
		l.frame = old
		return n
	}
	sites := l.P.sites[f]
	if len(sites) == 0 || len(l.busy) > 40 {
		return 0
	}
	best := -1
	for _, s := range sites {
		cc := s.Common()
		i := idx
		if cc.IsInvoke() {
			i--
		}
		if cc.StaticCallee() == nil && !cc.IsInvoke() && f.Signature.Recv() != nil {
			i--
		}
		if i < 0 || i >= len(cc.Args) {
			return 0
		}
		n := l.min(cc.Args[i], s)
		if best < 0 || n < best {
			best = n
		}
	}
	if best > 0 && best < anyLen {
		return best
	}
	return 0
}

// knownFilled: lists of libraries that are never empty where this repository meets them: a key pair that was
// loaded has a certificate, a server that a client connected to has presented one, and a query that was evaluated
// has an expression.
var knownFilled = map[string]bool{
	"crypto/tls.Certificate.Certificate":                          true,
	"crypto/tls.ConnectionState.PeerCertificates":                 true,
	"github.com/open-policy-agent/opa/rego.Result.Expressions":    true,
	"github.com/open-policy-agent/opa/v1/rego.Result.Expressions": true,
}

// generated or only ever run by developers
func outsideRuntime(f *ssa.Function) bool {
	pk := strings.TrimPrefix(fnPkgPath(f), modPath+"/")
	if isMock(pk) || f.Synthetic != "" || strings.HasPrefix(pk, "generators") || strings.HasPrefix(pk, "integration") || strings.HasSuffix(pk, "/cmd") {
		return true
	}
	if rv := f.Signature.Recv(); rv != nil && strings.Contains(rv.Type().String(), ".Mock") {
		return true
	}
	if strings.HasPrefix(pk, "client/") && strings.HasSuffix(pk, "client") {
		return true
	}
	return false
}

func init() {
	register(&Check{
		ID: "P03", Level: "proof",
		Rule:        "an element at a constant place or counted from the end is only taken of something known to be long enough; a value of unknown type is only taken as a type (without ok) when it is known to hold it; a pointer that decoding may leave nil is only used where it was tested, or the function that decodes only succeeds when it is set",
		Explanation: "lower bounds of lengths on all paths to each place, from how values are made, stored, tested and returned, through calls; backward flow of asserted values to where they are made; must-dataflow from each decoding to the successful returns. Indexes that vary, arithmetic and library internals are not covered",
		Run: func(p *Prog, r *Report) {
			indexRule(p, r)
			assertRule(p, r)
			nilRule(p, r)
		},
	})
}

func indexRule(p *Prog, r *Report) {
	l := newLens(p)
	n := 0
	for _, f := range p.Funcs {
		if outsideRuntime(f) {
			continue
		}
		cnt := map[string]int{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var x, idx ssa.Value
				switch y := i.(type) {
				case *ssa.IndexAddr:
					if _, ok := deref(y.X.Type()).Underlying().(*types.Array); ok {
						continue
					}
					x, idx = y.X, y.Index
				case *ssa.Lookup:
					if _, ok := y.X.Type().Underlying().(*types.Basic); !ok {
						continue
					}
					x, idx = y.X, y.Index
				case *ssa.Slice:
					if _, ok := deref(y.X.Type()).Underlying().(*types.Array); ok {
						continue
					}
					for _, bd := range []ssa.Value{y.Low, y.High} {
						if bd == nil {
							continue
						}
						need, what, ok := needs(bd, y.X, false)
						if !ok {
							continue
						}
						n++
						cnt[what]++
						have := l.min(y.X, i)
						r.at("index", i, fmt.Sprintf("slice to %s, %d", what, cnt[what]), have >= need, fmt.Sprintf("the length must be at least %d, known is at least %d", need, have))
					}
					continue
				default:
					continue
				}
				need, what, ok := needs(idx, x, true)
				if !ok {
					continue
				}
				n++
				cnt[what]++
				have := l.min(x, i)
				r.at("index", i, fmt.Sprintf("index %s, %d", what, cnt[what]), have >= need, fmt.Sprintf("the length must be at least %d, known is at least %d", need, have))
			}
		}
	}
	r.need("index", "indexes", n, 60)
}

// needs: the length a slice needs for an index or bound that is constant or counts from its end.
func needs(idx, of ssa.Value, element bool) (int, string, bool) {
	add := 0
	if element {
		add = 1
	}
	if n, ok := constInt(idx); ok {
		return int(n) + add, fmt.Sprint(n), true
	}
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.SUB {
		if w := lengthOf(b.X); w != nil && vkey(w) == vkey(of) {
			if n, ok := constInt(b.Y); ok {
				return int(n), fmt.Sprintf("len-%d", n), true
			}
		}
	}
	return 0, "", false
}
