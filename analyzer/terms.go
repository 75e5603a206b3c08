package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms: copy propagation for the paths interp explores. A value that is not a known constant is named for where it
// comes from, x.Field, x.Method(args) or Func(args), so that what reaches a call, a field or a return can be compared
// with what has to reach it, however many variables, helpers or branches are in between.

// decodedMark marks structures that were filled by decoding into them.
const decodedMark = "\x03decoded "

// addedMark marks lists that something was added to.
const addedMark = "\x03added "

const termMark = "\x01"

func isTerm(v constant.Value) bool {
	return v != nil && v.Kind() == constant.String && strings.Contains(constant.StringVal(v), termMark)
}

func mkTerm(s string) constant.Value { return constant.MakeString(termMark + plainTerm(s)) }

func plainTerm(s string) string { return strings.ReplaceAll(s, termMark, "") }

func showTerm(v constant.Value) string {
	switch {
	case v == nil:
		return "?"
	case sameConst(v, isNil):
		return "nil"
	case sameConst(v, isSet):
		return "set"
	case v.Kind() == constant.String:
		s := constant.StringVal(v)
		if strings.Contains(s, termMark) {
			return strings.ReplaceAll(plainTerm(s), ",", ";")
		}
		return strings.ReplaceAll(s, ",", ";")
	}
	return v.ExactString()
}

func (t *interp) show(v ssa.Value, e ienv, prev *ssa.BasicBlock) string {
	return showTerm(t.eval(v, e, prev))
}

// whole shows a value with what was set in it.
func (t *interp) whole(v ssa.Value, e ienv, prev *ssa.BasicBlock) string {
	s := t.show(v, e, prev)
	if m := t.holds(s, e); m != "" {
		s += "{" + m + "}"
	}
	return s
}

func (t *interp) holds(s string, e ienv) string {
	var ks []string
	for k, v := range e {
		if cl, ok := k.(*cell); ok {
			if prop, ok := strings.CutPrefix(cl.name, s+"."); ok {
				prop = strings.TrimSuffix(prop, "()")
				if t.skip[prop[strings.LastIndex(prop, ".")+1:]] {
					continue
				}
				ks = append(ks, prop+"="+showTerm(v))
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// cell is a place that is named, rather than made by one instruction.
type cell struct{ name string }

func (c *cell) Name() string                       { return "\x02" + c.name }
func (c *cell) String() string                     { return c.name }
func (c *cell) Type() types.Type                   { return types.Typ[types.Invalid] }
func (c *cell) Parent() *ssa.Function              { return nil }
func (c *cell) Referrers() *[]ssa.Instruction      { return nil }
func (c *cell) Pos() token.Pos                     { return token.NoPos }
func (c *cell) Operands([]*ssa.Value) []*ssa.Value { return nil }

var cells = map[string]*cell{}

func cellOf(name string) *cell {
	if c := cells[name]; c != nil {
		return c
	}
	c := &cell{name}
	cells[name] = c
	return c
}

// base names what a field is of.
func (t *interp) base(v ssa.Value, e ienv, prev *ssa.BasicBlock) string {
	if x, ok := e[v]; ok {
		if isTerm(x) {
			return showTerm(x)
		}
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		// a variable that holds a structure
		return allocName(x)
	case *ssa.FieldAddr:
		if b := t.base(x.X, e, prev); b != "" {
			return b + "." + fieldName(x)
		}
		return ""
	case *ssa.IndexAddr:
		if y := t.eval(x.X, e, prev); y != nil && y.Kind() == constant.String {
			return showTerm(y) + "[]"
		}
		return ""
	case *ssa.Global:
		return x.Name()
	}
	if y := t.eval(v, e, prev); isTerm(y) {
		return showTerm(y)
	}
	return ""
}

func allocName(a *ssa.Alloc) string {
	n := "&" + bareType(a.Type()) + "@" + a.Parent().Name() + a.Name()
	allocs[n] = a
	return n
}

var allocs = map[string]*ssa.Alloc{}

// madeHere: the method that is called on something that was made on this path.
func (t *interp) madeHere(c *ssa.CallCommon, e ienv, prev *ssa.BasicBlock) *ssa.Function {
	y := t.eval(c.Value, e, prev)
	if !isTerm(y) {
		return nil
	}
	a := allocs[showTerm(y)]
	if a == nil {
		return nil
	}
	return t.p.SSA.LookupMethod(a.Type(), c.Method.Pkg(), c.Method.Name())
}

// knownSet: a comparison with nil of something that was seen not to be nil.
func knownSet(x *ssa.BinOp, a, b constant.Value, e ienv) constant.Value {
	if x.Op != token.EQL && x.Op != token.NEQ {
		return nil
	}
	for _, pr := range [][2]constant.Value{{a, b}, {b, a}} {
		if sameConst(pr[1], isNil) && isTerm(pr[0]) {
			if _, ok := e[cellOf(isSetMark+showTerm(pr[0]))]; ok {
				return constant.MakeBool(x.Op == token.NEQ)
			}
		}
	}
	return nil
}

const isSetMark = "\x03"

func bareType(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n := typeName(t)
	if n == "" {
		n = t.String()
	}
	return n[strings.LastIndex(n, ".")+1:]
}

func fieldName(fa *ssa.FieldAddr) string {
	k := fieldKey(fa)
	return k[strings.LastIndex(k, ".")+1:]
}

func (t *interp) load(x *ssa.UnOp, e ienv, prev *ssa.BasicBlock) constant.Value {
	switch a := x.X.(type) {
	case *ssa.FieldAddr:
		b := t.base(a.X, e, prev)
		if b == "" {
			return nil
		}
		n := b + "." + fieldName(a)
		if y, ok := e[cellOf(n)]; ok {
			return y
		}
		root, _, _ := strings.Cut(b, ".")
		if strings.HasPrefix(b, "&") && e[cellOf(decodedMark+root)] == nil {
			// what was not set in a structure made here
			return zeroConst(x.Type())
		}
		if strings.HasPrefix(n, "&") {
			n = "*" + n
		}
		return mkTerm(n)
	case *ssa.IndexAddr:
		return t.element(a, e, prev)
	case *ssa.Global:
		return mkTerm(a.Name())
	case *ssa.Alloc:
		if _, ok := x.Type().Underlying().(*types.Struct); ok {
			// a structure that was filled field by field
			return mkTerm(allocName(a))
		}
		if arr, ok := x.Type().Underlying().(*types.Array); ok && arr.Len() <= 4 {
			if vs := arrayParts(a, int(arr.Len())); vs != nil {
				var ss []string
				for _, v := range vs {
					ss = append(ss, t.show(v, e, prev))
				}
				return mkTerm("[" + strings.Join(ss, " ") + "]")
			}
		}
	default:
		if n, _ := t.fieldAt(x.X, e, prev); n != "" {
			if y, ok := e[cellOf(n)]; ok {
				return y
			}
			if !strings.HasPrefix(n, "&") {
				return mkTerm(n)
			}
		}
	}
	return nil
}

// fieldAddrs: fields of which the address was taken, by how it is shown.
var fieldAddrs = map[string]*ssa.FieldAddr{}

// fieldAt: the field a pointer is known to be the address of.
func (t *interp) fieldAt(addr ssa.Value, e ienv, prev *ssa.BasicBlock) (string, *ssa.FieldAddr) {
	switch addr.(type) {
	case *ssa.Parameter, *ssa.Phi, *ssa.UnOp:
	default:
		return "", nil
	}
	y := t.eval(addr, e, prev)
	if !isTerm(y) {
		return "", nil
	}
	fa := fieldAddrs[showTerm(y)]
	if fa == nil || !types.Identical(fa.Type(), addr.Type()) {
		return "", nil
	}
	return showTerm(y), fa
}

// arrayParts: what the elements of an array are, when each is set once, where the array is made.
func arrayParts(a *ssa.Alloc, n int) []ssa.Value {
	out := make([]ssa.Value, n)
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			if u, ok := ref.(*ssa.UnOp); ok && u.Block() == a.Block() {
				continue
			}
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			return nil
		}
		k, ok := constInt(ia.Index)
		if !ok || int(k) >= n || out[k] != nil {
			return nil
		}
		for _, r := range *ia.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Addr != ia || out[k] != nil || st.Block() != a.Block() {
				return nil
			}
			out[k] = st.Val
		}
	}
	for _, v := range out {
		if v == nil {
			return nil
		}
	}
	return out
}

// listParts: the elements of lists that are known in full, by how the list is shown. When different lists are shown
// the same none is known.
var listParts = map[string][]constant.Value{}

func holdParts(l string, parts []constant.Value) {
	have, ok := listParts[l]
	if !ok {
		listParts[l] = parts
		return
	}
	same := len(have) == len(parts)
	for i := range have {
		same = same && sameConst(have[i], parts[i])
	}
	if !same {
		listParts[l] = nil
	}
}

// element names an element of a list.
func (t *interp) element(a *ssa.IndexAddr, e ienv, prev *ssa.BasicBlock) constant.Value {
	y := t.eval(a.X, e, prev)
	if in, ok := a.X.(*ssa.IndexAddr); ok {
		y = t.element(in, e, prev)
	}
	if y == nil || y.Kind() != constant.String || sameConst(y, isSet) || sameConst(y, isNil) {
		return nil
	}
	at := "[]"
	if parts := listParts[showTerm(y)]; parts != nil && t.turns > 0 {
		if k := t.eval(a.Index, e, prev); k != nil && k.Kind() == constant.Int {
			if i, ok := constant.Int64Val(k); ok && i >= 0 && i < int64(len(parts)) {
				return parts[i]
			}
		}
	}
	if k, ok := constInt(a.Index); ok {
		at = "[" + strconv.FormatInt(k, 10) + "]"
	} else if k := t.eval(a.Index, e, prev); t.turns > 0 && k != nil && k.Kind() == constant.Int {
		at = "[" + k.ExactString() + "]"
	}
	if isTerm(y) {
		return mkTerm(showTerm(y) + at)
	}
	return constant.MakeString(showTerm(y) + at)
}

func zeroConst(t types.Type) constant.Value {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsString != 0:
			return constant.MakeString("")
		case b.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false)
		case b.Info()&types.IsInteger != 0:
			return constant.MakeInt64(0)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return isNil
	}
	return nil
}

// term names a value.
func (t *interp) term(v ssa.Value, e ienv, prev *ssa.BasicBlock) constant.Value {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return t.eval(x.X, e, prev)
	case *ssa.ChangeInterface:
		return t.eval(x.X, e, prev)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return t.eval(x.X, e, prev)
		}
	case *ssa.Alloc:
		if x.Heap || true {
			return mkTerm(allocName(x))
		}
	case *ssa.Field:
		if y := t.eval(x.X, e, prev); isTerm(y) {
			st, ok := x.X.Type().Underlying().(*types.Struct)
			if ok {
				return mkTerm(showTerm(y) + "." + st.Field(x.Field).Name())
			}
		}
	case *ssa.FieldAddr:
		if b := t.base(x, e, prev); b != "" {
			fieldAddrs[b] = x
			return mkTerm(b)
		}
	case *ssa.Global:
		return mkTerm(x.Name())
	case *ssa.Slice:
		if k, ok := constInt(x.High); ok && x.High != nil && k == 0 {
			return constant.MakeString("[]")
		}
		if _, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			if vs := varargs(x); len(vs) > 0 {
				var ss []string
				plain := true
				for _, a := range vs {
					y := t.eval(a, e, prev)
					plain = plain && y != nil && !isTerm(y)
					ss = append(ss, showTerm(y))
				}
				l := "[" + strings.Join(ss, " ") + "]"
				var parts []constant.Value
				for _, a := range vs {
					parts = append(parts, t.eval(a, e, prev))
				}
				holdParts(l, parts)
				if plain {
					return constant.MakeString(l)
				}
				return mkTerm(l)
			}
			if at, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := at.Elem().Underlying().(*types.Array); ok && arr.Len() == 0 {
					return constant.MakeString("[]")
				}
			}
			// the bytes of an array
			if y, ok := e[x.X]; ok {
				return y
			}
		}
		if y := t.eval(x.X, e, prev); y != nil && x.Low == nil && x.High == nil {
			return y
		} else if isTerm(y) {
			return mkTerm(showTerm(y) + "[" + t.bound(x.Low, e, prev) + ":" + t.bound(x.High, e, prev) + "]")
		}
	case *ssa.MakeClosure:
		return mkTerm(strings.TrimSuffix(x.Fn.Name(), "$bound"))
	case *ssa.Function:
		return mkTerm(x.Name())
	case *ssa.MakeChan:
		return mkTerm("&chan@" + x.Parent().Name() + x.Name())
	case *ssa.MakeSlice, *ssa.MakeMap:
		return constant.MakeString("[]")
	case *ssa.Index:
		if y := t.eval(x.X, e, prev); isTerm(y) {
			return mkTerm(showTerm(y) + "[" + t.show(x.Index, e, prev) + "]")
		}
	case *ssa.Lookup:
		if y := t.eval(x.X, e, prev); isTerm(y) && !x.CommaOk {
			return mkTerm(showTerm(y) + "[" + t.show(x.Index, e, prev) + "]")
		}
	case *ssa.Extract:
		switch tp := x.Tuple.(type) {
		case *ssa.Select:
			n := 0
			for _, st := range tp.States {
				if st.Dir != types.RecvOnly {
					continue
				}
				if x.Index == n+2 {
					return mkTerm("<-" + t.show(st.Chan, e, prev))
				}
				n++
			}
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return t.eval(tp.X, e, prev)
			}
			return mkTerm("is(" + t.show(tp.X, e, prev) + " " + bareType(tp.AssertedType) + ")")
		case *ssa.Lookup:
			n := t.show(tp.X, e, prev) + "[" + t.show(tp.Index, e, prev) + "]"
			if x.Index == 1 {
				n = "has(" + n + ")"
			}
			return mkTerm(n)
		case *ssa.Next:
			if rg, ok := tp.Iter.(*ssa.Range); ok {
				n := t.show(rg, e, prev)
				if n == "?" {
					n = t.show(rg.X, e, prev)
				}
				switch x.Index {
				case 1:
					return mkTerm(n + "[key]")
				case 2:
					return mkTerm(n + "[]")
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW && !x.CommaOk {
			return mkTerm("<-" + t.show(x.X, e, prev))
		}
	}
	return nil
}

func (t *interp) bound(v ssa.Value, e ienv, prev *ssa.BasicBlock) string {
	if v == nil {
		return ""
	}
	return t.show(v, e, prev)
}

// termOp: the result of an operation on terms.
func termOp(x *ssa.BinOp, a, b constant.Value) (constant.Value, bool) {
	if a == nil || b == nil {
		return nil, false
	}
	if x.Op == token.ADD && a.Kind() == constant.String && b.Kind() == constant.String {
		s := constant.StringVal(a) + constant.StringVal(b)
		if isTerm(a) || isTerm(b) {
			return mkTerm(s), true
		}
		return constant.MakeString(s), true
	}
	if !isTerm(a) && !isTerm(b) {
		return nil, false
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		// what is made is not nil
		for _, pr := range [][2]constant.Value{{a, b}, {b, a}} {
			if sameConst(pr[1], isNil) && strings.HasPrefix(showTerm(pr[0]), "&") && !strings.Contains(showTerm(pr[0]), "(") {
				return constant.MakeBool(x.Op == token.NEQ), true
			}
		}
	case token.SUB, token.MUL, token.QUO, token.REM, token.ADD:
		return mkTerm("(" + showTerm(a) + x.Op.String() + showTerm(b) + ")"), true
	}
	return nil, true
}

func isCompare(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

// notTerm: the opposite of an outcome.
func notTerm(v constant.Value) constant.Value {
	if y, ok := strings.CutPrefix(showTerm(v), "!"); ok {
		return mkTerm(y)
	}
	return mkTerm("!" + showTerm(v))
}

// turnOf: a condition that compares a known number with the length of a list.
func (t *interp) turnOf(cond ssa.Value, isTrue bool, e ienv, prev *ssa.BasicBlock) (n int64, list string, more, ok bool) {
	b, is := cond.(*ssa.BinOp)
	if !is || b.Op != token.LSS && b.Op != token.GTR && b.Op != token.LEQ && b.Op != token.GEQ {
		return
	}
	x, y, op := b.X, b.Y, b.Op
	if op == token.GTR || op == token.GEQ {
		x, y = y, x
		op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	k := t.eval(x, e, prev)
	if k == nil || k.Kind() != constant.Int {
		return
	}
	n, _ = constant.Int64Val(k)
	if op == token.LEQ {
		n--
	}
	list, ok = lenOfTerm(t.show(y, e, prev))
	return n, list, isTrue, ok
}

// pastTurns: a turn that is not followed.
func (t *interp) pastTurns(cond ssa.Value, isTrue bool, e ienv, prev *ssa.BasicBlock) bool {
	n, list, more, ok := t.turnOf(cond, isTrue, e, prev)
	if !ok {
		return false
	}
	if k := e[cellOf(lenMark+list)]; k != nil {
		at, _ := constant.Int64Val(k)
		return more != (n < at)
	}
	if !more && e[cellOf(fmt.Sprint(lenMark, "more ", n, list))] != nil {
		return true
	}
	return more && n >= t.turns
}

const lenMark = "\x06"

// learnLen: how long a list is, when a loop over it ends.
func (t *interp) learnLen(cond ssa.Value, isTrue bool, e ienv, prev *ssa.BasicBlock) {
	if n, list, more, ok := t.turnOf(cond, isTrue, e, prev); ok && !more && n >= 0 {
		if e[cellOf(fmt.Sprint(lenMark, "more ", n-1, list))] != nil || n == 0 {
			e[cellOf(lenMark+list)] = constant.MakeInt64(n)
		}
	} else if ok && more {
		e[cellOf(fmt.Sprint(lenMark, "more ", n, list))] = constant.MakeBool(true)
	}
}

// condName names the outcome of a condition.
func condName(v ssa.Value, t *interp, e ienv, prev *ssa.BasicBlock, o bool) string {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, o = u.X, !o
	}
	n := readyName(v, t, e, prev)
	if b, ok := v.(*ssa.BinOp); ok && n == "" {
		x, y := t.show(b.X, e, prev), t.show(b.Y, e, prev)
		op := b.Op
		switch op {
		case token.NEQ:
			op, o = token.EQL, !o
		case token.GEQ:
			op, o = token.LSS, !o
		case token.GTR:
			op, x, y = token.LSS, y, x
		case token.LEQ:
			op, x, y, o = token.LSS, y, x, !o
		}
		if op == token.EQL && x < y {
			x, y = y, x
		}
		// whether something has elements
		lx, isX := lenOfTerm(x)
		ly, isY := lenOfTerm(y)
		switch {
		case op == token.EQL && isX && y == "0":
			n = "empty(" + lx + ")"
		case op == token.EQL && isY && x == "0":
			n = "empty(" + ly + ")"
		case op == token.LSS && isY && x == "0":
			n, o = "empty("+ly+")", !o
		case op == token.LSS && isX && y == "1":
			n = "empty(" + lx + ")"
		}
		if n == "" && op == token.EQL && (x == "" || y == "") {
			n = "empty(" + x + y + ")"
		}
		if n == "" {
			n = x + op.String() + y
		}
	} else if n == "" {
		n = t.show(v, e, prev)
	}
	return fmt.Sprintf("if %s %v", strings.ReplaceAll(n, ",", ";"), o)
}

// readyName names the condition under which a select takes one of its cases.
func readyName(v ssa.Value, t *interp, e ienv, prev *ssa.BasicBlock) string {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL {
		return ""
	}
	ex, ok := b.X.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return ""
	}
	sel, ok := ex.Tuple.(*ssa.Select)
	k, isConst := constInt(b.Y)
	if !ok || !isConst || k < 0 || int(k) >= len(sel.States) {
		return ""
	}
	ch := t.show(sel.States[k].Chan, e, prev)
	if ch == "?" && ctxDone(sel.States[k].Chan) != nil {
		ch = "ctx.Done()"
	}
	return "ready(" + ch + ")"
}

func lenOfTerm(s string) (string, bool) {
	if x, ok := strings.CutPrefix(s, "len("); ok && strings.HasSuffix(x, ")") {
		return strings.TrimSuffix(x, ")"), true
	}
	return "", false
}

// assume: what the outcome of a condition says about what was compared; true when an error was found to be set.
func (t *interp) assume(v ssa.Value, o bool, e ienv, prev *ssa.BasicBlock) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return t.assume(u.X, !o, e, prev)
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return false
	}
	x, y := b.X, b.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) {
		return false
	}
	set := (b.Op == token.EQL) != o
	if set && !isErr(x.Type()) {
		return false
	}
	val := isNil
	if set {
		val = isSet
	}
	e[x] = val
	if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL && isErr(x.Type()) {
		e[ld.X] = val
	}
	return set
}

// stored notes what fields hold.
func (t *interp) stored(x *ssa.Store, e ienv, prev *ssa.BasicBlock, effects string) string {
	fa, ok := x.Addr.(*ssa.FieldAddr)
	if !ok {
		if n, fa := t.fieldAt(x.Addr, e, prev); n != "" {
			y := t.eval(x.Val, e, prev)
			if y == nil {
				y = mkTerm("?")
			}
			e[cellOf(n)] = y
			if t.record != nil && t.record("set "+fieldKey(fa)) {
				effects = t.noted(effects, "set "+fieldKey(fa)+"="+showTerm(y))
			}
		}
		return effects
	}
	b := t.base(fa.X, e, prev)
	if b == "" {
		return effects
	}
	if !strings.HasPrefix(b, "&") {
		e[cellOf(isSetMark+b)] = constant.MakeBool(true)
	}
	if ld, ok := x.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if _, ok := ld.Type().Underlying().(*types.Struct); ok {
			// a copy of all fields
			from := t.base(ld.X, e, prev)
			for k, v := range e {
				if cl, ok := k.(*cell); ok && from != "" {
					if rest, ok := strings.CutPrefix(cl.name, from+"."); ok {
						e[cellOf(b+"."+fieldName(fa)+"."+rest)] = v
					}
				}
			}
			return effects
		}
	}
	y := t.eval(x.Val, e, prev)
	delete(e, x.Addr)
	if y != nil {
		e[cellOf(b+"."+fieldName(fa))] = y
	} else {
		e[cellOf(b+"."+fieldName(fa))] = mkTerm("?")
	}
	if t.record != nil && t.record("set "+fieldKey(fa)) {
		effects = t.noted(effects, "set "+fieldKey(fa)+"="+showTerm(y))
	}
	return effects
}

func (t *interp) callName(c ssa.CallInstruction) string {
	if t.name != nil {
		if n := t.name(c); n != "" {
			return n
		}
	}
	return mname(c.Common())
}

// called names what a call gives, and notes the call.
func (t *interp) called(ci ssa.CallInstruction, e ienv, prev *ssa.BasicBlock, effects string) string {
	cc := ci.Common()
	c, _ := ci.(*ssa.Call)
	give := func(idx int, v constant.Value) {
		if c == nil {
			return
		}
		if cc.Signature().Results().Len() == 1 {
			e[c] = v
			return
		}
		for _, ref := range *c.Referrers() {
			if x, ok := ref.(*ssa.Extract); ok && x.Index == idx {
				e[x] = v
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			list := t.show(cc.Args[0], e, prev)
			if list == "nil" || list == "[]" {
				list = ""
			}
			add := ""
			if y := t.eval(cc.Args[1], e, prev); y != nil {
				add = showTerm(y)
			}
			if t.record != nil && t.record("append") {
				effects = t.noted(effects, "append("+strings.TrimSuffix(strings.TrimPrefix(add, "["), "]")+")")
			}
			added := func(n string) {
				give(0, mkTerm(n))
				e[cellOf(addedMark+n)] = constant.MakeBool(true)
			}
			in := func(s string) string { return strings.TrimSuffix(strings.TrimPrefix(s, "["), "]") }
			if t.turns > 0 && add != "" && add != "?" {
				// both are known in full
				have, more := listParts[list], listParts[add]
				if more != nil && (have != nil || list == "") && len(have) < 8 {
					parts := append(append([]constant.Value{}, have...), more...)
					l := add
					if list != "" {
						l = "[" + in(list) + " " + in(add) + "]"
					}
					holdParts(l, parts)
					added(l)
					break
				}
				holdParts("["+in(list)+" "+in(add)+"]", nil)
			}
			switch {
			case add == "" || add == "?":
				give(0, mkTerm("?"))
			case list == "":
				added(add)
			case in(list) == in(add) || strings.HasSuffix(in(list), " "+in(add)):
				added(list)
			default:
				added("[" + in(list) + " " + in(add) + "]")
			}
		case "delete":
			if t.record != nil && t.record("delete") {
				effects = t.noted(effects, "delete("+t.show(cc.Args[0], e, prev)+" "+t.show(cc.Args[1], e, prev)+")")
			}
		case "copy":
			// a list made as long as another and filled from it
			ms, _ := cc.Args[0].(*ssa.MakeSlice)
			y := t.eval(cc.Args[1], e, prev)
			if ms != nil && isTerm(y) {
				long := "len(" + showTerm(y) + ")"
				if l := e[cellOf(lenMark+showTerm(y))]; l != nil {
					long = showTerm(l)
				} else if parts := listParts[showTerm(y)]; t.turns > 0 && parts != nil {
					long = fmt.Sprint(len(parts))
				}
				if t.show(ms.Len, e, prev) == long {
					e[ms] = y
				}
			}
		case "len":
			y := t.eval(cc.Args[0], e, prev)
			switch {
			case y == nil:
			case t.turns > 0 && listParts[showTerm(y)] != nil:
				give(0, constant.MakeInt64(int64(len(listParts[showTerm(y)]))))
			case isTerm(y) && e[cellOf(lenMark+showTerm(y))] != nil:
				give(0, e[cellOf(lenMark+showTerm(y))])
			case isTerm(y):
				give(0, mkTerm("len("+showTerm(y)+")"))
			case sameConst(y, isNil) || showTerm(y) == "" || showTerm(y) == "[]":
				give(0, constant.MakeInt64(0))
			case y.Kind() == constant.String && strings.HasPrefix(constant.StringVal(y), "{"):
				give(0, constant.MakeInt64(3)) // there are some
			}
		}
		return effects
	}

	name := t.callName(ci)
	if name == "" && !cc.IsInvoke() && cc.StaticCallee() == nil {
		// a function value goes by where it comes from
		if y := t.eval(cc.Value, e, prev); isTerm(y) {
			name = showTerm(y)
		}
	}
	av := cc.Args
	recv := ""
	if rv := recvArg(cc); rv != nil {
		recv = t.base(rv, e, prev)
		if recv == "" {
			recv = t.show(rv, e, prev)
		}
		if !cc.IsInvoke() {
			av = av[1:]
		}
	}
	if cc.Signature().Variadic() && len(av) > 0 {
		last := av[len(av)-1]
		if vs := varargs(last); vs != nil {
			av = append(append([]ssa.Value{}, av[:len(av)-1]...), vs...)
		} else if isNilConst(last) {
			av = av[:len(av)-1]
		}
	}
	if into, _ := isDecode(cc); into != nil {
		if mi, ok := into.(*ssa.MakeInterface); ok {
			into = mi.X
		}
		if b := t.base(into, e, prev); strings.HasPrefix(b, "&") {
			e[cellOf(decodedMark+b)] = constant.MakeBool(true)
		}
	}
	if _, isParam := cc.Value.(*ssa.Parameter); !cc.IsInvoke() && cc.StaticCallee() == nil && !isParam {
		// what is passed to a function that is not known can be changed by it
		for _, a := range av {
			if b := t.base(a, e, prev); strings.HasPrefix(b, "&") {
				e[cellOf(decodedMark+b)] = constant.MakeBool(true)
				for k := range e {
					if cl, ok := k.(*cell); ok && strings.HasPrefix(cl.name, b+".") {
						delete(e, k)
					}
				}
			}
		}
	}
	var args []string
	plain := true
	for _, a := range av {
		y := t.eval(a, e, prev)
		plain = plain && y != nil && !isTerm(y)
		args = append(args, t.whole(a, e, prev))
	}

	if cname(cc) == "fmt.Sprintf" && len(av) > 0 {
		if f, ok := constString(av[0]); ok {
			if s, ok := format(f, args[1:]); ok {
				if plain {
					give(0, constant.MakeString(s))
				} else {
					give(0, mkTerm(s))
				}
				return effects
			}
		}
	}

	full := name + "(" + strings.Join(args, " ") + ")"
	if recv != "" {
		full = recv + "." + full
	}
	if t.record != nil && t.record(name) {
		effects = t.noted(effects, full)
	}
	if _, isCall := ci.(*ssa.Call); !isCall {
		// what is left to the end gives nothing
		return effects
	}

	// what was set is what is found
	if recv != "" {
		if prop, ok := strings.CutPrefix(mname(cc), "Set"); ok && prop != "" && cc.Signature().Results().Len() <= 1 {
			v := ""
			switch len(args) {
			case 0:
			case 1:
				v = args[0]
			default:
				v = strings.Join(args, " ")
			}
			if len(av) == 1 {
				if y := t.eval(av[0], e, prev); y != nil {
					e[cellOf(recv+"."+prop+"()")] = y
				} else {
					e[cellOf(recv+"."+prop+"()")] = mkTerm("?")
				}
			} else {
				e[cellOf(recv+"."+prop+"()")] = mkTerm("set(" + v + ")")
			}
		}
		if y, ok := e[cellOf(recv+"."+name+"()")]; ok && len(args) == 0 {
			give(0, y)
			for i := 1; i < cc.Signature().Results().Len(); i++ {
				give(i, mkTerm(full+"#"+strconv.Itoa(i)))
			}
			return effects
		}
		if name == "JSON" {
			if m := t.holds(recv, e); m != "" {
				full = recv + "{" + m + "}.JSON()"
			}
		}
	}

	// what is decoded into changes
	if into, _ := isDecode(cc); into != nil {
		if b := t.base(into, e, prev); b != "" {
			for k := range e {
				if cl, ok := k.(*cell); ok && strings.HasPrefix(cl.name, b+".") {
					e[k] = mkTerm(cl.name + "'")
				}
			}
		}
	}
	n := cc.Signature().Results().Len()
	for i := 0; i < n; i++ {
		s := full
		if i > 0 {
			s += "#" + strconv.Itoa(i)
		}
		if i == 0 && n == 1 && isErr(cc.Signature().Results().At(0).Type()) {
			if nameIn(cname(cc), "fmt.Errorf", "errors.New") {
				give(0, isSet)
				continue
			}
		}
		give(i, mkTerm(s))
	}
	return effects
}

// format fills in a format string of which all verbs are %s, %v or %x.
func format(f string, args []string) (string, bool) {
	var out strings.Builder
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out.WriteByte(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return "", false
		}
		switch f[i] {
		case '%':
			out.WriteByte('%')
		case 's', 'v', 'd', 'x', 'q':
			if n >= len(args) {
				return "", false
			}
			if f[i] == 'x' || f[i] == 'q' {
				out.WriteString(string(f[i]) + "(" + args[n] + ")")
			} else {
				out.WriteString(args[n])
			}
			n++
		default:
			return "", false
		}
	}
	return out.String(), n == len(args)
}

// intoClosure runs the function a call is known to run with known arguments.
func (t *interp) intoClosure(c *ssa.Call, e ienv, prev *ssa.BasicBlock) []iexit {
	if t.closure == nil || t.deep > 6 {
		return nil
	}
	var args []constant.Value
	for _, a := range c.Call.Args {
		args = append(args, t.eval(a, e, prev))
	}
	fv, params := t.closure(c, args)
	if fv == nil {
		return nil
	}
	pe := ienv{}
	var fn *ssa.Function
	switch x := fv.(type) {
	case *ssa.MakeClosure:
		fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if y, ok := e[b]; ok {
				pe[fn.FreeVars[i]] = y
			}
		}
	case *ssa.Function:
		fn = x
	default:
		return nil
	}
	for i, v := range params {
		if i < len(fn.Params) && v != nil {
			pe[fn.Params[i]] = v
		}
	}
	for k, v := range e {
		if cl, ok := k.(*cell); ok {
			pe[cl] = v
		}
	}
	sub := *t
	sub.past = t.past + "," + t.now
	sub.deep++
	sub.stop = nil
	sub.mark = nil
	sub.ends = nil
	exits := sub.run(fn, pe)
	for i := range exits {
		if n := fn.Signature.Results().Len(); t.strict && n > 0 && isErr(fn.Signature.Results().At(n-1).Type()) && strings.Contains(exits[i].effects, "!err") && handled(exits[i]) {
			exits[i].effects = addEffect(exits[i].effects, "hide an error")
		}
		exits[i].vals = nil
	}
	// what it may have changed is no longer known
	if mc, ok := fv.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			for _, ref := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == mc.Fn.(*ssa.Function).FreeVars[i] {
					delete(e, b)
				}
			}
		}
	}
	return exits
}

// runsOnce: a loop is left at its header only after it ran.
func runsOnce(b *ssa.BasicBlock, si int, effects string, single bool) (string, bool) {
	if len(b.Succs) == 2 && b.Succs[0].Comment == "rangeint.body" && b.Succs[1].Comment == "rangeint.done" && !b.Succs[0].Dominates(b) {
		return effects, si == 1
	}
	for _, l := range loopsOf(b.Parent()) {
		if l.head != b {
			continue
		}
		m := "@" + b.Parent().Name() + strconv.Itoa(b.Index)
		ran := false
		for _, x := range strings.Split(effects, ",") {
			ran = ran || x == m
		}
		if l.body[b.Succs[si]] {
			return addEffect(effects, m), single && ran
		}
		return effects, !ran
	}
	return effects, false
}

// notes splits the effects of a path, without what only keeps count of loops.
func notes(effects string) []string {
	var out []string
	for _, x := range strings.Split(noIdentity(effects), ",") {
		if x != "" && !strings.HasPrefix(x, "@") && x != "!err" {
			out = append(out, x)
		}
	}
	return out
}

// named: what named places hold, and a key for it.
func (t *interp) named(e ienv) (ienv, string) {
	if !t.terms {
		return nil, ""
	}
	cs := ienv{}
	var ks []string
	for k, v := range e {
		if cl, ok := k.(*cell); ok {
			cs[k] = v
			ks = append(ks, cl.name+"="+v.ExactString())
		}
	}
	sort.Strings(ks)
	return cs, strings.Join(ks, "|")
}

// plain: a value that is known and is not empty, with a name.
func plainConst(s string) map[int]constant.Value {
	return map[int]constant.Value{0: constant.MakeString(s)}
}

// gives: calls, by the names of what is called, that are known to give something.
func gives(m map[string]constant.Value) func(c ssa.CallInstruction) (string, map[int]constant.Value) {
	return func(c ssa.CallInstruction) (string, map[int]constant.Value) {
		n := cname(c.Common())
		if v, ok := m[n]; ok {
			return "", map[int]constant.Value{0: v}
		}
		if v, ok := m["."+mname(c.Common())]; ok {
			return "", map[int]constant.Value{0: v}
		}
		return "", nil
	}
}

// does: on every path through f that does not fail, exactly these things were done, and that and nothing else is
// given; a path on which something failed does no other things, and does not say that nothing failed.
func (r *Report) does(rule string, t *interp, f *ssa.Function, params ienv, what string, want []string, vals ...string) {
	r.mayDo(rule, t, f, params, what, want, nil, vals...)
}

// mayDo: like does, with effects that can also happen.
func (r *Report) mayDo(rule string, t *interp, f *ssa.Function, params ienv, what string, want, may []string, vals ...string) {
	exits := t.run(f, params)
	if os.Getenv("VERIF_TERMS") != "" && strings.Contains(fname(f)+what, os.Getenv("VERIF_TERMS")) {
		for _, x := range exits {
			if x.ret != nil {
				fmt.Println("PATH", t.p.ipos(x.ret), notes(x.effects))
				for _, v := range x.vals {
					fmt.Println("     ", showTerm(v))
				}
			}
		}
	}
	wanted := map[string]bool{}
	for _, w := range want {
		wanted[strings.ReplaceAll(w, ",", ";")] = true
	}
	ok, det := true, "does "+strings.Join(want, ", ")
	fails := func(d string) {
		if ok {
			ok, det = false, d
		}
	}
	good := 0
	for _, x := range exits {
		if x.ret == nil {
			continue
		}
		n := len(x.vals)
		set, unset := false, true
		if n > 0 && isErr(x.ret.Results[n-1].Type()) {
			set, unset = sameConst(x.vals[n-1], isSet), sameConst(x.vals[n-1], isNil)
		}
		at := t.p.ipos(x.ret)
		did := map[string]bool{}
		for _, d := range notes(x.effects) {
			did[d] = true
			if !wanted[d] && !nameIn(d, may...) {
				fails("can do " + d + " when returning at " + at + ", not " + strings.Join(want, ", "))
			}
		}
		if set || (strings.Contains(x.effects, "!err") && !unset) {
			continue
		}
		if t.strict && strings.Contains(x.effects, "!err") && n > 0 && isErr(x.ret.Results[n-1].Type()) {
			fails("can return at " + at + " without the error it found")
		}
		good++
		for _, w := range sortedKeys(wanted) {
			if !did[w] {
				fails("can return at " + at + " without " + w)
			}
		}
		for k, w := range vals {
			if w != "" && k < n && noIdentity(showTerm(x.vals[k])) != w {
				fails("gives " + showTerm(x.vals[k]) + " at " + at + ", not " + w)
			}
		}
	}
	if good == 0 {
		fails("always fails")
	}
	r.seen(f)
	pos := t.p.pos(f.Pos())
	r.ob(rule, fname(f)+": "+what, ok, pos, det)
}

// handled: a function that found an error did not report one.
func handled(x iexit) bool {
	if x.ret == nil {
		return false
	}
	n := len(x.ret.Results)
	if n == 0 || x.vals == nil {
		return false
	}
	return !isErr(x.ret.Results[n-1].Type()) || sameConst(x.vals[n-1], isNil)
}

func dropEffect(have, one string) string {
	var out []string
	for _, x := range strings.Split(have, ",") {
		if x != one {
			out = append(out, x)
		}
	}
	return strings.Join(out, ",")
}

// closureOf is the function literal that is called.
func closureOf(v ssa.Value) *ssa.MakeClosure {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x
	case *ssa.UnOp:
		var found *ssa.MakeClosure
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					mc, ok := st.Val.(*ssa.MakeClosure)
					if !ok || found != nil {
						return nil
					}
					found = mc
				}
			}
		}
		return found
	}
	return nil
}

func (t *interp) callTerm(cc *ssa.CallCommon, e ienv, prev *ssa.BasicBlock) string {
	recv := ""
	av := cc.Args
	if rv := recvArg(cc); rv != nil {
		recv = t.show(rv, e, prev) + "."
		if !cc.IsInvoke() {
			av = av[1:]
		}
	}
	var args []string
	for _, a := range av {
		args = append(args, t.whole(a, e, prev))
	}
	n := mname(cc)
	if n == "" {
		n = t.show(cc.Value, e, prev)
	}
	return recv + n + "(" + strings.Join(args, " ") + ")"
}

// dispatch describes what a path must do to each thing it takes: the conditions under which it is passed on.
func (r *Report) passesOn(rule string, t *interp, f *ssa.Function, params ienv, what, want string, conds ...string) {
	exits := t.run(f, params)
	want = strings.ReplaceAll(want, ",", ";")
	ok, det := true, "does "+want
	fails := func(d string) {
		if ok {
			ok, det = false, d
		}
	}
	passed := 0
	for _, x := range exits {
		did, dropped, ended := false, "", false
		have := map[string]bool{}
		for _, d := range notes(x.effects) {
			if strings.HasPrefix(d, "if ") {
				have[d] = true
				ended = ended || strings.HasPrefix(d, "if ready(") && strings.HasSuffix(d, ".Done()) true")
				continue
			}
			if d == want {
				did = true
				continue
			}
			fails("can do " + d + ", not " + want)
		}
		for _, c := range conds {
			if a, b, ok := strings.Cut(c, "==nil"); ok && !have["if "+c] {
				// the operands of a comparison are in one order
				c = "nil==" + a + b
				if !have["if "+c] && !have["if nil=="+a+" false"] && !have["if nil=="+a+" true"] {
					c = a + "==nil" + b
				}
			}
			no := strings.TrimSuffix(c, " true") + " false"
			if strings.HasSuffix(c, " false") {
				no = strings.TrimSuffix(c, " false") + " true"
			}
			if have["if "+no] {
				dropped = no
			} else if did && !have["if "+c] {
				fails("does it without looking whether " + c)
			}
		}
		switch {
		case did && dropped != "":
			fails("does it when " + dropped)
		case did:
			passed++
		case dropped == "" && !ended && !strings.Contains(x.effects, "!err") && x.ret == nil:
			fails("there is a path on which nothing is done: " + strings.Join(notes(x.effects), "; "))
		}
	}
	if passed == 0 {
		fails("is never done")
	}
	r.seen(f)
	r.ob(rule, fname(f)+": "+what, ok, t.p.pos(f.Pos()), det)
}

// typedTerms names the parameters and captured variables of a function by their types.
func typedTerms(f *ssa.Function, names map[string]string) ienv {
	e := ienv{}
	for _, x := range f.Params {
		if n := names[short(types.TypeString(x.Type(), nil))]; n != "" {
			e[x] = mkTerm(n)
		}
	}
	for _, x := range f.FreeVars {
		if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
			if n := names[short(types.TypeString(pt.Elem(), nil))]; n != "" {
				e[x] = mkTerm(n)
			}
		}
	}
	return e
}

// has: a path on which something was done.
func (x iexit) did(effects ...string) bool {
	for _, d := range notes(x.effects) {
		for _, w := range effects {
			if d == strings.ReplaceAll(w, ",", ";") {
				return true
			}
		}
	}
	return false
}

// noIdentity: structures made at different places look the same.
func noIdentity(s string) string { return madeAt.ReplaceAllString(s, "$1") }

var madeAt = regexp.MustCompile(`(&\w+)@[\w$]+`)

// noted adds an effect, and says so when it comes before one it has to follow.
func (t *interp) noted(effects, one string) string {
	for what, first := range t.first {
		if strings.HasPrefix(noIdentity(one), what) {
			found := false
			for _, h := range strings.Split(t.past+","+effects, ",") {
				found = found || strings.HasPrefix(noIdentity(h), first)
			}
			if !found {
				effects = addEffect(effects, "early "+one)
			}
		}
	}
	return addEffect(effects, one)
}

// chosen: the channel operation of a select an outcome of a condition stands for.
func (t *interp) chosen(cond ssa.Value, isTrue bool, e ienv, prev *ssa.BasicBlock) string {
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL || !isTrue {
		return ""
	}
	ex, ok := bo.X.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return ""
	}
	sel, ok := ex.Tuple.(*ssa.Select)
	k, isConst := constInt(bo.Y)
	if !ok || !isConst || int(k) >= len(sel.States) || k < 0 {
		return ""
	}
	st := sel.States[k]
	if st.Dir == types.RecvOnly {
		if t.record("recv") {
			return "recv(" + t.show(st.Chan, e, prev) + ")"
		}
		return ""
	}
	if t.record("send") {
		return "send(" + t.show(st.Chan, e, prev) + " " + t.whole(st.Send, e, prev) + ")"
	}
	return ""
}

// goTerm: what a goroutine runs, also when a literal wraps one call.
func (t *interp) goTerm(c *ssa.CallCommon, e ienv, prev *ssa.BasicBlock) string {
	var fn *ssa.Function
	pe := ienv{}
	switch x := c.Value.(type) {
	case *ssa.MakeClosure:
		fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if y, ok := e[b]; ok {
				pe[fn.FreeVars[i]] = y
			}
		}
	case *ssa.Function:
		fn = x
	}
	if fn == nil || fn.Parent() == nil || len(fn.Blocks) != 1 {
		return t.callTerm(c, e, prev)
	}
	for i, a := range c.Args {
		if y := t.eval(a, e, prev); y != nil {
			pe[fn.Params[i]] = y
		}
	}
	for k, v := range e {
		if cl, ok := k.(*cell); ok {
			pe[cl] = v
		}
	}
	var one *ssa.Call
	for _, i := range fn.Blocks[0].Instrs {
		switch x := i.(type) {
		case *ssa.Call:
			if one != nil {
				return t.callTerm(c, e, prev)
			}
			one = x
		case *ssa.Store, *ssa.Send:
			return t.callTerm(c, e, prev)
		}
	}
	if one == nil {
		return t.callTerm(c, e, prev)
	}
	return t.callTerm(&one.Call, pe, nil)
}

// passCase: what has to be done when some conditions hold.
type passCase struct {
	when []string // conditions, followed by true or false
	want []string
	also func(string) bool // what else can be done
}

// perPass: every path through one pass of a loop, or through a function, does what all the cases it can be of call for.
func (r *Report) perPass(rule string, t *interp, f *ssa.Function, params ienv, what string, cases ...passCase) {
	ok, det := true, fmt.Sprintf("does what each of %d cases calls for", len(cases))
	fails := func(d string) {
		if ok {
			ok, det = false, d
		}
	}
	seen := map[int]bool{}
	for _, x := range t.run(f, params) {
		if x.ret != nil && t.ends != nil {
			continue
		}
		have, did := map[string]bool{}, map[string]bool{}
		ended := false
		for _, d := range notes(x.effects) {
			if strings.HasPrefix(d, "if ") {
				have[d] = true
				ended = ended || strings.HasPrefix(d, "if ready(") && strings.HasSuffix(d, ".Done()) true")
			} else {
				did[d] = true
			}
		}
		if os.Getenv("VERIF_TERMS") != "" && strings.Contains(fname(f)+what, os.Getenv("VERIF_TERMS")) {
			fmt.Println("PASS", strings.Join(notes(x.effects), "\n    "))
		}
		if ended && len(did) == 0 || severalPasses(have) {
			continue
		}
		if t.ends == nil && x.ret != nil && len(x.vals) > 0 {
			// how it ends is part of what it does
			n := len(x.vals) - 1
			switch {
			case !isErr(x.ret.Results[n].Type()):
			case sameConst(x.vals[n], isNil):
				did["succeed"] = true
			case sameConst(x.vals[n], isSet), strings.Contains(x.effects, "!err"), namesError(showTerm(x.vals[n]), f):
				did["fail"] = true
			default:
				did["return "+showTerm(x.vals[n])] = true
			}
			if t.result && len(x.vals) > 0 && !did["fail"] && (n > 0 || !isErr(x.ret.Results[0].Type())) {
				did["give "+showTerm(x.vals[0])] = true
			}
		}
		matched := false
		for i, c := range cases {
			if !possible(have, c.when) {
				continue
			}
			matched, seen[i] = true, true
			wanted := map[string]bool{}
			for _, w := range c.want {
				w = strings.ReplaceAll(w, ",", ";")
				if y, ok := strings.CutPrefix(w, "return "); ok && !did[w] {
					// whether it worked can be looked at before it is returned
					if holds(have, y+"==nil", true) {
						w = "succeed"
					} else if holds(have, y+"==nil", false) {
						w = "fail"
					}
				}
				wanted[w] = true
				if !did[w] {
					fails("can leave out " + w + " when " + strings.Join(c.when, " and "))
				}
			}
			for _, d := range sortedKeys(did) {
				if !wanted[d] && (c.also == nil || !c.also(d)) {
					fails("can do " + d + " when " + strings.Join(c.when, " and "))
				}
			}
		}
		if !matched && len(did) > 0 {
			fails("can do " + strings.Join(sortedKeys(did), ", ") + " when " + strings.Join(sortedKeys(have), " and "))
		}
	}
	for i, c := range cases {
		if !seen[i] {
			fails("has no path for " + strings.Join(c.when, " and "))
		}
	}
	r.seen(f)
	r.ob(rule, fname(f)+": "+what, ok, r.P.pos(f.Pos()), det)
}

// holds: a path goes on with this outcome of a condition.
func holds(have map[string]bool, cond string, out bool) bool {
	o := fmt.Sprintf(" %v", out)
	if have["if "+cond+o] {
		return true
	}
	a, b, ok := strings.Cut(cond, "==nil")
	return ok && have["if nil=="+a+b+o]
}

// severalPasses: a path on which a condition holds once and does not another time, for different elements; the paths with
// one element say what has to happen.
func severalPasses(have map[string]bool) bool {
	for c := range have {
		if y, ok := strings.CutSuffix(c, " true"); ok && have[y+" false"] && !strings.Contains(y, "?") {
			return true
		}
	}
	return false
}

// namesError: a variable of the package that always holds an error.
func namesError(n string, f *ssa.Function) bool {
	for g := range nonNilGlobals {
		if g.Name() == n && g.Pkg == f.Pkg && isErr(deref(g.Type())) {
			return true
		}
	}
	return false
}

// possible: the conditions of a path do not rule out those of a case.
func possible(have map[string]bool, when []string) bool {
	for _, c := range when {
		c = strings.ReplaceAll(c, ",", ";")
		no := strings.TrimSuffix(c, " true") + " false"
		if strings.HasSuffix(c, " false") {
			no = strings.TrimSuffix(c, " false") + " true"
		}
		if have["if "+no] {
			return false
		}
		// the operands of a comparison come in either order
		if a, b, ok := strings.Cut(no, "==nil"); ok && have["if nil=="+a+b] {
			return false
		}
	}
	return true
}
