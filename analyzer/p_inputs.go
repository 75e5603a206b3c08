package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ddlA  = "providers/agent/mcorpc/ddl/agent."
	ddlC  = "providers/agent/mcorpc/ddl/common."
	mcReq = "providers/agent/mcorpc.Request"
)

// failIdx is the result that says a function failed: its error, or else its boolean.
func failIdx(f *ssa.Function) (int, Outcome) {
	res := f.Signature.Results()
	idx, out := -1, NonNil
	for i := 0; i < res.Len(); i++ {
		if isErr(res.At(i).Type()) {
			return i, NonNil
		}
		if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			idx, out = i, False
		}
	}
	return idx, out
}

// findLoops looks for loops in f, and in functions of its package it calls and whose failure it passes on.
func (p *Prog) findLoops(f *ssa.Function, match func(l *loop) bool) []*loop {
	var out []*loop
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function, d int)
	visit = func(g *ssa.Function, d int) {
		if seen[g] || d > 4 {
			return
		}
		seen[g] = true
		for _, l := range loopsOf(g) {
			if l.over != nil && match(l) {
				out = append(out, l)
			}
		}
		calls(g, func(c ssa.CallInstruction) {
			call, ok := c.(*ssa.Call)
			if !ok {
				return
			}
			h := c.Common().StaticCallee()
			if h == nil || !p.InRepo[h] || fnPkgPath(h) != fnPkgPath(f) {
				return
			}
			i, o := failIdx(h)
			if i < 0 || o != NonNil {
				return
			}
			if ok, _ := p.failsOnError(nil, call, i); ok {
				visit(h, d+1)
			}
		})
	}
	visit(f, 0)
	return out
}

func (r *Report) everyPassFails(rule string, a *Facts, l *loop, what, want string, pred func(Set) bool) {
	i, o := failIdx(l.head.Parent())
	r.everyPass(rule, a, l, what, want, pred, i, o)
}

// noWayAround: f only succeeds after running the loop.
func (r *Report) noWayAround(rule string, a *Facts, f *ssa.Function, l *loop, what string) {
	i, bad := failIdx(f)
	mark := l.head.Instrs[len(l.head.Instrs)-1]
	for _, ret := range a.returns(f) {
		v := ret.Results[i]
		if contradicted(v, bad.flip(), ret.Block(), nil) {
			continue
		}
		ok := r.P.precededBy(ret, func(i ssa.Instruction) bool { return i == mark })
		if !ok {
			// the paths that get here without it may be failing ones
			ok = r.P.failsWithout(a, ret, i, bad, mark)
		}
		r.at(rule, ret, what+": always visited", ok, "can succeed without visiting them")
	}
}

// alwaysVisits: f only succeeds after running the loop, which may be within another loop or in a function that f calls.
func (r *Report) alwaysVisits(rule string, a *Facts, f *ssa.Function, l *loop, what string) {
	g := l.head.Parent()
	var in *loop
	for _, o := range loopsOf(g) {
		if o.head != l.head && o.body[l.head] && (in == nil || in.body[o.head]) {
			in = o
		}
	}
	if in != nil {
		ok := true
		for _, p := range in.head.Preds {
			ok = ok && (!in.body[p] || l.head.Dominates(p))
		}
		r.at(rule, l.head.Instrs[len(l.head.Instrs)-1], what+": visited for each", ok && in.full, "a pass of the loop around it can leave these out")
		r.alwaysVisits(rule, a, f, in, what)
		return
	}
	r.noWayAround(rule, a, g, l, what)
	if g == f {
		return
	}
	for _, c := range r.P.callsTo(fname(g)) {
		call, ok := c.(*ssa.Call)
		if !ok || fnPkgPath(call.Parent()) != fnPkgPath(f) {
			continue
		}
		b := call.Block()
		var in *loop
		for _, o := range loopsOf(call.Parent()) {
			if o.body[b] && (in == nil || in.body[o.head]) {
				in = o
			}
		}
		if in != nil {
			ok := true
			for _, p := range in.head.Preds {
				ok = ok && (!in.body[p] || b.Dominates(p))
			}
			r.at(rule, call, what+": visited for each", ok && in.full, "a pass of the loop around it can leave these out")
			r.alwaysVisits(rule, a, f, in, what)
			continue
		}
		i, bad := failIdx(call.Parent())
		if i < 0 {
			continue
		}
		for _, ret := range a.returns(call.Parent()) {
			if contradicted(ret.Results[i], bad.flip(), ret.Block(), nil) {
				continue
			}
			ok := r.P.precededBy(ret, func(i ssa.Instruction) bool { return i == call }) || r.P.failsWithout(a, ret, i, bad, call)
			r.at(rule, ret, what+": always visited", ok, "can succeed without visiting them")
		}
	}
}

// failsWithout: on all paths to a return that do not run mark, result i has outcome bad.
func (p *Prog) failsWithout(a *Facts, ret *ssa.Return, i int, bad Outcome, mark ssa.Instruction) bool {
	s := newSpec(p)
	s.exec(func(i ssa.Instruction) []string {
		if i == mark {
			return []string{"visited"}
		}
		return nil
	})
	f := s.facts()
	st := f.state(ret.Parent())
	for _, d := range ordered(st.in[ret.Block()]) {
		if impossible(d, ret.Results[i], bad.flip()) {
			continue
		}
		have := f.throughD(st, d, ret.Block(), ret)
		if !have.top && !have.has("visited") {
			return false
		}
	}
	return true
}

func inputSpec(p *Prog) *Spec {
	s := newSpec(p)
	const in = ddlC + "InputItem"
	s.result("validated", 1, Nil, nil, "(*"+in+").ValidateValue")
	s.opaque["(*"+in+").ValidateValue"] = true
	s.field("optional", in+".Optional", True)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if ex, ok := v.(*ssa.Extract); ok && ex.Index == 1 {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
				decl := loadedField(lk.X) == ddlA+"Action.Input"
				switch {
				case decl && o == True:
					return []string{"declared"}
				case decl && o == False:
					return []string{"undeclared"}
				case o == True:
					return []string{"present"}
				case o == False:
					return []string{"missing"}
				}
			}
		}
		if o == NonNil && loadedField(v) == in+".Default" {
			return []string{"default"}
		}
		if x, y, eq, ok := equality(v, o); ok && eq {
			if elementOf(x) != nil && elementOf(y) != nil && nameOfInput(p, x) != nameOfInput(p, y) {
				return []string{"declared"}
			}
		}
		if c, ok := v.(*ssa.Call); ok && o == True {
			if l, e, ok := p.memberTest(c); ok && inputNames(p, l) && elementOf(e) != nil {
				return []string{"declared"}
			}
		}
		return nil
	})
	return s
}

// inputNames: the value is the list of inputs an action declares, or the map of these.
func inputNames(p *Prog, v ssa.Value) bool {
	fl := &Flow{P: p, Stop: func(v ssa.Value) string {
		if loadedField(v) == ddlA+"Action.Input" {
			return "inputs"
		}
		return callSource("InputNames")(v)
	}}
	return onlyOf(fl, v, "inputs", "result:InputNames")
}

func nameOfInput(p *Prog, v ssa.Value) bool {
	e := elementOf(v)
	return e != nil && inputNames(p, e)
}

func init() {
	register(&Check{
		ID: "A05", Level: "proof",
		Rule:        "validating request data against a DDL succeeds only when every declared input is present and validated, or absent and optional, and every input given is declared; validating a value succeeds only when the test of its declared type held, and for strings the length and content validation too; the validation of a string succeeds only when the validator it names accepted it. Parsing the request of an agent succeeds only when it decoded and validated as a structure, every field having passed the validator in its tag, and agents that can not parse a request do nothing else. Every tag used is one the validators know, well formed and fitting the field. Each validator accepts only values that passed its test",
		Explanation: "must-facts on accepting returns and at the end of every pass of the validating loops, which must visit all elements and end early only by failing; tags are read from the type information",
		Run: func(p *Prog, r *Report) {
			ddlData(p, r)
			ddlValue(p, r)
			parsing(p, r)
			validators(p, r)
			tags(p, r)
		},
	})
}

// ddlData: all inputs are validated against what the action declares.
func ddlData(p *Prog, r *Report) {
	s := inputSpec(p)
	a := s.facts()
	given := anyOf(has("validated", "present"), has("missing", "optional"), has("missing", "undeclared"))

	f := r.anchor("inputs", "(*"+ddlA+"Action).ValidateRequestData")
	if f != nil {
		ls := p.findLoops(f, func(l *loop) bool { return inputNames(p, l.over) && !nested(l) })
		for _, l := range ls {
			r.everyPassFails("inputs", a, l, "declared inputs", "the input validated, or absent and optional", given)
			r.noWayAround("inputs", a, f, l, "declared inputs")
		}
		r.need("inputs", "loops over the declared inputs", len(ls), 1)
		ls = p.findLoops(f, func(l *loop) bool { return isMap(l.over) && !inputNames(p, l.over) })
		for _, l := range ls {
			r.everyPassFails("inputs", a, l, "given inputs", "the input being declared", has("declared"))
			r.noWayAround("inputs", a, f, l, "given inputs")
		}
		r.need("inputs", "loops over the given inputs", len(ls), 1)
		// the value validated is the one given
		n := 0
		for _, c := range p.callsTo("(*" + ddlC + "InputItem).ValidateValue") {
			if outer(c.Parent()).Name() != "ValidateInputValue" {
				continue
			}
			n++
			fl := &Flow{P: p, In: map[*ssa.Function]bool{f: true}}
			ok := false
			for _, o := range fl.From(args(c.Common())[0]) {
				ok = o.Label == "param:"+fname(f)+".data"
				if pr, is := o.V.(*ssa.Parameter); is && pr.Parent() == f && isMap(pr) {
					ok = true
				}
				if !ok {
					break
				}
			}
			r.at("inputs", c, "value validated", ok, "must be the value given for the input")
		}
		r.need("inputs", "validations of values", n, 1)
	}

	if f := r.anchor("inputs", "(*"+ddlA+"Action).ValidateRequestJSON"); f != nil {
		s := newSpec(p)
		s.result("decoded", 0, Nil, nil, "encoding/json.Unmarshal")
		s.result("validated", 1, Nil, func(c ssa.CallInstruction) bool {
			return decodedInto(p, f, args(c.Common())[0])
		}, "(*"+ddlA+"Action).ValidateRequestData")
		s.opaque["(*"+ddlA+"Action).ValidateRequestData"] = true
		r.need("inputs", "accepting returns of "+fname(f), r.returnsRequire("inputs", s.facts(), f, 1, Nil, has("decoded", "validated"), "accepted request", "the data decoded and validated"), 1)
	}

	if f := r.anchor("inputs", "(*"+ddlA+"Action).ValidateAndConvertToDDLTypes"); f != nil {
		ls := p.findLoops(f, func(l *loop) bool { return inputNames(p, l.over) && !nested(l) })
		for _, l := range ls {
			r.everyPassFails("inputs", a, l, "declared inputs", "the input present, optional or with a default", anyOf(has("present"), has("missing", "optional"), has("missing", "default")))
			r.noWayAround("inputs", a, f, l, "declared inputs")
		}
		r.need("inputs", "loops over the declared inputs", len(ls), 1)
		ls = p.findLoops(f, func(l *loop) bool { return isMap(l.over) && !inputNames(p, l.over) })
		for _, l := range ls {
			r.everyPassFails("inputs", a, l, "given inputs", "the input being declared and validated", has("declared", "validated"))
			r.noWayAround("inputs", a, f, l, "given inputs")
		}
		r.need("inputs", "loops over the given inputs", len(ls), 1)
	}

	if f := r.anchor("inputs", "(*"+ddlA+"Action).InputNames"); f != nil {
		// all names are listed
		ok := false
		for _, l := range loopsOf(f) {
			if l.over == nil || loadedField(l.over) != ddlA+"Action.Input" || !l.full {
				continue
			}
			ok = true
			for b := range l.body {
				for _, sc := range b.Succs {
					if !l.body[sc] && b != l.head {
						ok = false
					}
				}
			}
			// every pass appends
			for _, pr := range l.head.Preds {
				if !l.body[pr] {
					continue
				}
				app := p.precededByFrom(l.head.Succs[0], pr, func(i ssa.Instruction) bool {
					c, ok := i.(*ssa.Call)
					return ok && cname(&c.Call) == "builtin.append"
				})
				ok = ok && app
			}
		}
		if !ok {
			calls(f, func(c ssa.CallInstruction) {
				if nameIn(cname(c.Common()), "maps.Keys", "slices.Sorted", "slices.Collect") {
					ok = true
				}
			})
		}
		r.at("inputs", f.Blocks[0].Instrs[0], "names of the inputs", ok, "must list every declared input")
	}
}

func nested(l *loop) bool {
	for _, o := range loopsOf(l.head.Parent()) {
		if o.head != l.head && o.body[l.head] {
			return true
		}
	}
	return false
}

func isMap(v ssa.Value) bool {
	_, ok := v.Type().Underlying().(*types.Map)
	return ok
}

// precededByFrom: every path from the start of a block to the end of another runs an instruction via accepts.
func (p *Prog) precededByFrom(from, to *ssa.BasicBlock, via func(i ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if p.runs(i, via, map[*ssa.Function]bool{}) {
				return true
			}
		}
		if b == to {
			return false
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(from)
}

// decodedInto: the value is what json was decoded into in f.
func decodedInto(p *Prog, f *ssa.Function, v ssa.Value) bool {
	ok := false
	src, isLoad := v.(*ssa.UnOp)
	calls(f, func(c ssa.CallInstruction) {
		if cname(c.Common()) != "encoding/json.Unmarshal" {
			return
		}
		t := c.Common().Args[1]
		if mi, is := t.(*ssa.MakeInterface); is {
			t = mi.X
		}
		if t == v || (isLoad && t == src.X) {
			ok = true
		}
	})
	return ok
}

// ddlValue: a value is accepted when the test of its type held.
func ddlValue(p *Prog, r *Report) {
	const in = ddlC + "InputItem"
	f := r.anchor("types", "(*"+in+").ValidateValue")
	if f == nil {
		return
	}
	kinds := map[string]string{"InputTypeArray": "array", "InputTypeBoolean": "boolean", "InputTypeFloat": "float", "InputTypeHash": "hash",
		"InputTypeInteger": "integer", "InputTypeList": "list", "InputTypeNumber": "number", "InputTypeString": "string"}
	s := newSpec(p)
	isType := func(v ssa.Value) bool {
		fl := &Flow{P: p, NoCallers: true, Derive: derive(map[string]int{"strings.ToLower": 0, "strings.TrimSpace": 0})}
		return onlyOf(fl, v, "field:"+in+".Type")
	}
	s.cond(func(v ssa.Value, o Outcome) []string {
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if !isType(pr[0]) {
					continue
				}
				if c, ok := constString(pr[1]); ok {
					c = strings.ToLower(c)
					if c == "int" {
						c = "integer"
					}
					return []string{"t:" + c}
				}
				if u, ok := pr[1].(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && kinds[g.Name()] != "" {
						return []string{"t:" + kinds[g.Name()]}
					}
				}
			}
			// a member of the list
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if e := elementOf(pr[0]); e != nil && loadedField(e) == in+".Enum" {
					return []string{"in-list"}
				}
			}
		}
		if c, ok := v.(*ssa.Call); ok && o == True {
			if l, _, ok := p.memberTest(c); ok && loadedField(l) == in+".Enum" {
				return []string{"in-list"}
			}
		}
		if x, empty, ok := emptiness(v, o); ok && empty && loadedField(x) == in+".Validation" {
			return []string{"unvalidated"}
		}
		if b, ok := v.(*ssa.BinOp); ok {
			l, rr, op := b.X, b.Y, b.Op
			if op == token.LSS || op == token.LEQ {
				l, rr = rr, l
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ}[op]
			}
			if loadedField(rr) == in+".MaxLength" && op == token.GTR && o == False && lenOf(l) {
				return []string{"short"}
			}
			if loadedField(l) == in+".MaxLength" && (op == token.GEQ || op == token.GTR) && o == True {
				if lenOf(rr) {
					return []string{"short"}
				}
			}
			if loadedField(b.X) == in+".MaxLength" {
				if n, isN := constInt(b.Y); isN && n == 0 {
					if (b.Op == token.EQL && o == True) || (b.Op == token.NEQ && o == False) || (b.Op == token.GTR && o == False) || (b.Op == token.LEQ && o == True) {
						return []string{"unlimited"}
					}
				}
			}
		}
		return nil
	})
	arg := func(i int) func(c ssa.CallInstruction) bool {
		return func(c ssa.CallInstruction) bool {
			fl := &Flow{P: p, NoCallers: true}
			return onlyOf(fl, args(c.Common())[i], "param:"+fname(f)+".val") || paramOnly(fl, args(c.Common())[i], f, 1)
		}
	}
	one := arg(0)
	tests := map[string][]string{"integer": {"IsAnyInt", "IsIntFloat64"}, "number": {"IsNumber"}, "float": {"IsFloat64"}, "string": {"IsString"},
		"boolean": {"IsBool"}, "hash": {"IsMap"}, "array": {"IsArray"}}
	for k, ns := range tests {
		for _, n := range ns {
			s.result("is:"+k, 0, True, one, "validator."+n)
			s.opaque["validator."+n] = true
		}
	}
	s.result("valid", 1, Nil, arg(1), ddlC+"validateStringValidation")
	s.opaque[ddlC+"validateStringValidation"] = true
	a := s.facts()
	accept := anyOf(has("t:integer", "is:integer"), has("t:number", "is:number"), has("t:float", "is:float"), has("t:boolean", "is:boolean"),
		has("t:hash", "is:hash"), has("t:array", "is:array"), has("t:list", "in-list"),
		allOf(has("t:string", "is:string"), anyOf(has("short"), has("unlimited")), anyOf(has("valid"), has("unvalidated"))))
	n := r.returnsRequire("types", a, f, 1, Nil, accept, "accepted value", "the test of the declared type, and for strings those of the length and content")
	r.need("types", "accepting returns", n, 1)

	typeTests(p, r)

	g := r.anchor("types", ddlC+"validateStringValidation")
	if g == nil {
		return
	}
	s = newSpec(p)
	s.cond(func(v ssa.Value, o Outcome) []string {
		if x, y, eq, ok := equality(v, o); ok && eq {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if c, ok := constString(pr[1]); ok && paramOnly(&Flow{P: p, NoCallers: true}, pr[0], g, 0) {
					return []string{"v:" + c}
				}
			}
		}
		return nil
	})
	val := func(c ssa.CallInstruction) bool {
		return paramOnly(&Flow{P: p, NoCallers: true}, c.Common().Args[0], g, 1)
	}
	for _, k := range []string{"shellsafe.Validate", "ipv4.ValidateString", "ipv6.ValidateString", "ipaddress.ValidateString", "regex.ValidateString"} {
		pk := k[:strings.Index(k, ".")]
		s.result("ok:"+pk, 1, Nil, val, "validator/"+pk+"."+k[strings.Index(k, ".")+1:])
		s.result("ok:"+pk, 0, True, val, "validator/"+pk+"."+k[strings.Index(k, ".")+1:])
		s.opaque["validator/"+pk+"."+k[strings.Index(k, ".")+1:]] = true
	}
	named := func(c ssa.CallInstruction) bool {
		pat, ok := constString(c.Common().Args[0])
		return (!ok || strings.HasPrefix(pat, "^")) && paramOnly(&Flow{P: p, NoCallers: true}, c.Common().Args[1], g, 0)
	}
	s.result("named", 0, True, named, "regexp.MatchString")
	s.result("named", 1, NonNil, named, "regexp.MatchString")
	accept = anyOf(has("v:shellsafe", "ok:shellsafe"), has("v:ipv4address", "ok:ipv4"), has("v:ipv6address", "ok:ipv6"), has("v:ipaddress", "ok:ipaddress"),
		allOf(anyOf(has("ok:regex"), has("named")), noneOf("v:shellsafe", "v:ipv4address", "v:ipv6address", "v:ipaddress")))
	n = r.returnsRequire("content", s.facts(), g, 1, Nil, accept, "accepted content", "the named validator accepting it")
	r.need("content", "accepting returns", n, 5)
}

func noneOf(fs ...string) func(Set) bool {
	return func(s Set) bool {
		for _, f := range fs {
			if s.has(f) {
				return false
			}
		}
		return true
	}
}

// paramOnly: the value only comes from parameter i (not counting the receiver) of f.
func paramOnly(fl *Flow, v ssa.Value, f *ssa.Function, i int) bool {
	if f.Signature.Recv() != nil {
		i++
	}
	os := fl.From(v)
	if len(os) == 0 || i >= len(f.Params) {
		return false
	}
	for _, o := range os {
		if o.V != ssa.Value(f.Params[i]) {
			return false
		}
	}
	return true
}

// typeTests: the tests of types accept only the kinds of value they are named for.
func typeTests(p *Prog, r *Report) {
	ints := []string{"int", "int8", "int16", "int32", "int64"}
	want := map[string][]string{
		"IsString": {"string"}, "IsBool": {"bool"}, "IsFloat64": {"float64"}, "IsMap": {"map"}, "IsArray": {"array", "slice"},
		"IsAnyInt": ints, "IsNumber": append([]string{"float32", "float64"}, ints...), "IsIntFloat64": {"whole"},
	}
	for _, n := range sortedKeys(want) {
		f := r.anchor("types", "validator."+n)
		if f == nil {
			continue
		}
		s := newSpec(p)
		s.cond(func(v ssa.Value, o Outcome) []string {
			if ex, ok := v.(*ssa.Extract); ok && ex.Index == 1 && o == True {
				if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
					return []string{"is:" + types.TypeString(ta.AssertedType, nil)}
				}
			}
			if x, y, eq, ok := equality(v, o); ok && eq {
				for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
					if c, isC := pr[0].(*ssa.Call); isC && cname(&c.Call) == "(reflect.Value).Kind" {
						if n, isN := constInt(pr[1]); isN {
							return []string{"is:" + reflect.Kind(n).String()}
						}
					}
					c, isC := pr[1].(*ssa.Convert)
					if !isC {
						continue
					}
					if c2, isC := c.X.(*ssa.Convert); isC && c2.X == pr[0] && types.TypeString(pr[0].Type(), nil) == "float64" {
						return []string{"is:whole"}
					}
				}
			}
			return nil
		})
		var ps []func(Set) bool
		for _, t := range want[n] {
			ps = append(ps, has("is:"+t))
		}
		r.need("types", "accepting returns of "+n, r.returnsRequire("types", s.facts(), f, 0, True, anyOf(ps...), "accepted type", "the value being a "+strings.Join(want[n], " or ")), 1)
	}
}

// consistent: f never returns false without an error.
func (r *Report) consistent(rule string, a *Facts, f *ssa.Function) {
	for _, ret := range a.returns(f) {
		b, isC := constBool(ret.Results[0])
		ok := isC && (b || neverNil(ret.Results[1]) || contradicted(ret.Results[1], Nil, ret.Block(), nil))
		if !isC {
			// both handed on from the same call
			c1, _ := callOf(ret.Results[0])
			c2, _ := callOf(ret.Results[1])
			ok = c1 != nil && c1 == c2
		}
		r.at(rule, ret, "failure", ok, "must come with an error")
	}
}

// parsing: requests are decoded and validated, or nothing is done.
func parsing(p *Prog, r *Report) {
	const name = "providers/agent/mcorpc.ParseRequestData"
	f := r.anchor("parse", name)
	if f == nil {
		return
	}
	s := newSpec(p)
	target := func(i int) func(c ssa.CallInstruction) bool {
		return func(c ssa.CallInstruction) bool {
			return paramOnly(&Flow{P: p, NoCallers: true}, c.Common().Args[i], f, 0)
		}
	}
	s.result("decoded", 0, Nil, func(c ssa.CallInstruction) bool {
		fl := &Flow{P: p, NoCallers: true}
		return target(1)(c) && onlyOf(fl, c.Common().Args[0], "field:"+mcReq+".Data")
	}, "encoding/json.Unmarshal")
	s.result("validated", 0, True, target(0), "validator.ValidateStruct")
	s.result("validated", 1, Nil, target(0), "validator.ValidateStruct")
	s.opaque["validator.ValidateStruct"] = true
	n := r.returnsRequire("parse", s.facts(), f, 0, True, has("decoded", "validated"), "parsed request", "the request data decoded and validated")
	r.need("parse", "accepting returns", n, 1)
	// failures are reported in the reply
	sc := newSpec(p)
	sc.exec(func(i ssa.Instruction) []string {
		if st, ok := i.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "providers/agent/mcorpc.Reply.Statuscode" {
				if n, isN := constInt(st.Val); isN && n != 0 {
					return []string{"failed"}
				}
			}
		}
		return nil
	})
	r.returnsRequire("parse", sc.facts(), f, 0, False, has("failed"), "rejected request", "a failing status set in the reply")

	n = 0
	for _, c := range p.callsTo(name) {
		call, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		n++
		bad := effectAfter(p, call, 0, False)
		det := "nothing is done with a request that did not parse"
		if bad != nil {
			det = "runs " + describeInstr(bad) + " at " + p.ipos(bad) + " although the request did not parse"
		}
		r.at("parse", c, "request that does not parse", bad == nil, det)
		used := false
		for _, rf := range *call.Referrers() {
			if _, ok := rf.(*ssa.DebugRef); !ok {
				used = true
			}
		}
		r.at("parse", c, "outcome of parsing", used, "must be looked at")
	}
	r.need("parse", "agents parsing requests", n, 20)

	// agents do not decode requests another way
	n = 0
	for _, g := range p.Funcs {
		pk := strings.TrimPrefix(fnPkgPath(g), modPath+"/")
		if !strings.HasPrefix(pk, "providers/agent/mcorpc/golang/") && !strings.HasPrefix(pk, "scout/agent/") || isMock(fnPkgPath(g)) {
			continue
		}
		n++
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if fa, ok := i.(*ssa.FieldAddr); ok && fieldKey(fa) == mcReq+".Data" {
					r.at("parse", i, "use of the data in the request", false, "must be parsed with ParseRequestData, which validates it")
				}
			}
		}
	}
	r.need("parse", "functions of agents", n, 50)
}

func describeInstr(i ssa.Instruction) string {
	if c, ok := i.(ssa.CallInstruction); ok {
		if n := cname(c.Common()); n != "" {
			return n
		}
		return "a call"
	}
	return fmt.Sprintf("%T", i)
}

// effectAfter finds something done after result idx of a call had an outcome, other than logging, formatting and
// filling in the reply.
func effectAfter(p *Prog, call *ssa.Call, idx int, out Outcome) ssa.Instruction {
	var bad ssa.Instruction
	t := &pathSearch{call: call, idx: idx, out: out, visit: func(i ssa.Instruction, _ func(ssa.Value) bool) bool {
		switch x := i.(type) {
		case *ssa.Go, *ssa.Send, *ssa.MapUpdate:
			bad = i
		case *ssa.Call:
			if !p.harmless(x, 0) {
				bad = i
			}
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				if _, local := a.X.(*ssa.Alloc); !local && fieldKey(a) != "" && !strings.HasPrefix(fieldKey(a), "providers/agent/mcorpc.Reply.") {
					bad = i
				}
			case *ssa.Global:
				bad = i
			}
		}
		return bad == nil
	}}
	t.from(call)
	return bad
}

// harmless: the call only logs, formats or fills in the reply.
func (p *Prog) harmless(c *ssa.Call, d int) bool {
	n := cname(&c.Call)
	switch {
	case strings.HasPrefix(n, "fmt.S"), strings.HasPrefix(n, "fmt.Errorf"), strings.HasPrefix(n, "(*github.com/sirupsen/logrus."),
		strings.HasPrefix(n, "(github.com/sirupsen/logrus."), strings.HasPrefix(n, "builtin."), strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "strconv."),
		strings.HasPrefix(n, "errors."), strings.HasPrefix(n, "(time."), n == "time.Now", n == "time.Since", strings.HasSuffix(n, ".Error"),
		n == "path/filepath.Base", n == "path/filepath.Join":
		return true
	}
	g := c.Call.StaticCallee()
	if g == nil || !p.InRepo[g] || d > 3 || len(g.Blocks) == 0 {
		return false
	}
	ok := true
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				if !p.harmless(x, d+1) {
					ok = false
				}
			case *ssa.Go, *ssa.Send, *ssa.MapUpdate, *ssa.Defer:
				ok = false
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					if _, local := a.X.(*ssa.Alloc); !local && !strings.HasPrefix(fieldKey(a), "providers/agent/mcorpc.Reply.") {
						ok = false
					}
				case *ssa.Global:
					ok = false
				}
			}
		}
	}
	return ok
}

// validators: each accepts only what passed its test.
func validators(p *Prog, r *Report) {
	both := func(a *Facts, name string, pred func(Set) bool, want string) *ssa.Function {
		f := r.anchor("validator", name)
		if f == nil {
			return nil
		}
		n := r.returnsRequire("validator", a, f, 0, True, pred, "accepted value", want)
		r.need("validator", "accepting returns of "+name, n, 1)
		r.returnsRequire("validator", a, f, 1, Nil, pred, "value without error", want)
		return f
	}
	const v = "validator/"

	// addresses
	s := newSpec(p)
	parse := func(c ssa.CallInstruction) bool {
		return paramOnly(&Flow{P: p, NoCallers: true}, c.Common().Args[0], c.Parent(), 0)
	}
	s.result("ip", 0, NonNil, parse, "net.ParseIP")
	parsed := func(c ssa.CallInstruction) bool {
		return onlyOf(&Flow{P: p, NoCallers: true, Stop: callSource("ParseIP")}, c.Common().Args[0], "result:ParseIP")
	}
	s.result("ip4", 0, NonNil, parsed, "(net.IP).To4")
	s.result("not4", 0, Nil, parsed, "(net.IP).To4")
	a := s.facts()
	both(a, v+"ipv4.ValidateString", has("ip4"), "the value being an IPv4 address")
	both(a, v+"ipv6.ValidateString", has("ip", "not4"), "the value being an IPv6 address")
	both(a, v+"ipaddress.ValidateString", has("ip"), "the value being an IP address")

	s = newSpec(p)
	s.result("parsed", 1, Nil, parse, "time.ParseDuration")
	both(s.facts(), v+"duration.ValidateString", has("parsed"), "the value being a duration")

	s = newSpec(p)
	s.result("compiled", 1, Nil, func(c ssa.CallInstruction) bool {
		return paramOnly(&Flow{P: p, NoCallers: true}, c.Common().Args[0], c.Parent(), 1)
	}, "regexp.Compile")
	match := func(c ssa.CallInstruction) bool {
		av := c.Common().Args
		fl := &Flow{P: p, NoCallers: true, Stop: callSource("Compile", "MustCompile")}
		return onlyOf(fl, av[0], "result:Compile", "result:MustCompile") && paramOnly(&Flow{P: p, NoCallers: true}, av[1], c.Parent(), 0)
	}
	s.result("matched", 0, True, match, "(*regexp.Regexp).MatchString")
	both(s.facts(), v+"regex.ValidateString", has("matched"), "the value matching the expression")

	s = newSpec(p)
	s.cond(func(vv ssa.Value, o Outcome) []string {
		if b, ok := vv.(*ssa.BinOp); ok {
			if (b.Op == token.GTR && o == False) || (b.Op == token.LEQ && o == True) {
				if lenOf(b.X) && limit(b.Y) {
					return []string{"short"}
				}
			}
			if (b.Op == token.LSS && o == False) || (b.Op == token.GEQ && o == True) {
				if lenOf(b.Y) && limit(b.X) {
					return []string{"short"}
				}
			}
		}
		return nil
	})
	a = s.facts()
	both(a, v+"maxlength.ValidateString", has("short"), "the value being short enough")
	both(a, v+"maxlength.ValidateStructField", has("short"), "the value being short enough")

	// shell safety
	if f := r.anchor("validator", v+"shellsafe.Validate"); f != nil {
		s = newSpec(p)
		lit := map[string]bool{}
		s.cond(func(vv ssa.Value, o Outcome) []string {
			c, ok := vv.(*ssa.Call)
			if !ok || o != False {
				return nil
			}
			switch cname(&c.Call) {
			case "strings.Contains":
				if paramOnly(&Flow{P: p, NoCallers: true}, c.Call.Args[0], f, 0) {
					if k, ok := constString(c.Call.Args[1]); ok {
						return []string{"no:" + k}
					}
					if elementOf(c.Call.Args[1]) != nil {
						return []string{"absent"}
					}
				}
			case "strings.ContainsAny":
				if k, ok := constString(c.Call.Args[1]); ok && paramOnly(&Flow{P: p, NoCallers: true}, c.Call.Args[0], f, 0) {
					var out []string
					for _, ch := range k {
						out = append(out, "no:"+string(ch))
					}
					return out
				}
			}
			return nil
		})
		a = s.facts()
		for _, l := range p.findLoops(f, func(l *loop) bool { return true }) {
			for _, k := range literals(p, l.over) {
				lit[k] = true
			}
			r.everyPassFails("validator", a, l, "unsafe characters", "the character being absent", has("absent"))
			r.noWayAround("validator", a, f, l, "unsafe characters")
		}
		for _, k := range []string{"`", "$", ";", "|", "&&", ">", "<"} {
			if lit[k] || (k == "&&" && lit["&"]) {
				r.ob("validator", fname(f)+": "+k, true, "", "looked for in every value")
				continue
			}
			r.returnsRequire("validator", a, f, 1, Nil, anyOf(has("no:"+k), has("no:&")), "unsafe "+k, "the value not holding "+k)
		}
	}

	// enumerations
	if f := r.anchor("validator", v+"enum.ValidateString"); f != nil {
		s = newSpec(p)
		s.cond(func(vv ssa.Value, o Outcome) []string {
			if x, y, eq, ok := equality(vv, o); ok && eq {
				for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
					e := elementOf(pr[0])
					fl := &Flow{P: p, NoCallers: true}
					if e != nil && paramOnly(fl, e, f, 1) && paramOnly(fl, pr[1], f, 0) {
						return []string{"member"}
					}
				}
			}
			if c, ok := vv.(*ssa.Call); ok && o == True {
				if _, _, ok := p.memberTest(c); ok {
					return []string{"member"}
				}
			}
			return nil
		})
		both(s.facts(), v+"enum.ValidateString", has("member"), "the value being in the list")
	}
	if f := r.anchor("validator", v+"enum.ValidateSlice"); f != nil {
		s = newSpec(p)
		s.result("member", 0, True, nil, v+"enum.ValidateString")
		s.result("member", 1, Nil, nil, v+"enum.ValidateString")
		s.opaque[v+"enum.ValidateString"] = true
		a = s.facts()
		ls := p.findLoops(f, func(l *loop) bool { return true })
		for _, l := range ls {
			r.everyPassFails("validator", a, l, "values", "the value being in the list", has("member"))
			r.noWayAround("validator", a, f, l, "values")
		}
		r.need("validator", "loops over the values", len(ls), 1)
	}

	// fields
	fields := newSpec(p)
	kinds := []string{"shellsafe", "ipv4", "ipv6", "ipaddress", "regex", "maxlength", "enum", "duration"}
	for _, k := range kinds {
		n := v + k + ".ValidateStructField"
		f := r.anchor("field", n)
		if f == nil {
			continue
		}
		if k != "maxlength" {
			s := newSpec(p)
			for _, t := range []string{"ValidateString", "Validate", "ValidateSlice"} {
				s.result("tested", 0, True, nil, v+k+"."+t)
				s.result("tested", 1, Nil, nil, v+k+"."+t)
				s.opaque[v+k+"."+t] = true
			}
			both(s.facts(), n, has("tested"), "the value passing the validator")
		}
		fields.result("ok:"+k, 0, True, nil, n)
		fields.result("ok:"+k, 1, Nil, nil, n)
		fields.opaque[n] = true
	}
	f := r.anchor("field", "validator.validateStructField")
	if f == nil {
		return
	}
	const vs = "validator.validateStructValue"
	fields.result("ok:nested", 0, True, nil, vs)
	fields.result("ok:nested", 1, Nil, nil, vs)
	fields.result("!ok:nested", 0, False, nil, vs)
	fields.result("!ok:nested", 1, NonNil, nil, vs)
	fields.opaque[vs] = true
	fields.cond(func(vv ssa.Value, o Outcome) []string {
		if x, y, eq, ok := equality(vv, o); ok {
			for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
				if k, ok := constString(pr[1]); ok && k != "" {
					if eq {
						return tagFacts(kinds, k, true)
					}
					if k == "regex" || k == "maxlength" || k == "enum" {
						return nil // these have parameters
					}
					return []string{"!v:" + k}
				}
				if c, isC := pr[0].(*ssa.Call); isC && cname(&c.Call) == "(reflect.Value).Kind" {
					if n, isN := constInt(pr[1]); isN && reflect.Kind(n) == reflect.Struct {
						if eq {
							return []string{"v:nested"}
						}
						return []string{"!v:nested"}
					}
				}
			}
		}
		if x, empty, ok := emptiness(vv, o); ok && empty && x.Type().Underlying() == types.Typ[types.String] {
			var out []string
			for _, k := range kinds {
				out = append(out, "!v:"+k)
			}
			return out
		}
		if c, ok := vv.(*ssa.Call); ok && cname(&c.Call) == "strings.HasPrefix" {
			if k, ok := constString(c.Call.Args[1]); ok {
				if o == True {
					return tagFacts(kinds, k, false)
				}
				if o == False {
					return []string{"!v:" + k}
				}
			}
		}
		return nil
	})
	a = fields.facts()
	for _, k := range append([]string{"nested"}, kinds...) {
		n := r.returnsRequire("field", a, f, 0, Nil, anyOf(has("!v:"+k), has("ok:"+k)), "field with "+k, "the "+k+" validation having passed")
		r.need("field", "accepting returns for "+k, n, 1)
	}
	if g := r.anchor("field", vs); g != nil {
		r.consistent("field", a, g)
		s := newSpec(p)
		s.result("tested", 0, Nil, nil, "validator.validateStructField")
		s.opaque["validator.validateStructField"] = true
		a := s.facts()
		ls := p.findLoops(g, func(l *loop) bool { return true })
		for _, l := range ls {
			c, ok := l.over.(*ssa.Call)
			r.at("field", l.head.Instrs[0], "fields of a structure", ok && strings.HasSuffix(cname(&c.Call), ".NumField"), "all fields must be visited")
			r.everyPassFails("field", a, l, "fields", "the field passing its validation", has("tested"))
			r.noWayAround("field", a, g, l, "fields")
		}
		r.need("field", "loops over fields", len(ls), 1)
	}
	for _, n := range []string{"validator.ValidateStruct", "validator.ValidateStructField"} {
		s := newSpec(p)
		s.result("tested", 0, True, nil, vs)
		s.result("tested", 1, Nil, nil, vs)
		s.result("tested", 0, Nil, nil, "validator.validateStructField")
		s.opaque["validator.validateStructField"] = true
		s.opaque[vs] = true
		both(s.facts(), n, has("tested"), "the structure or field having been validated")
	}
}

// tagFacts: what a tag that is (or starts with) text selects.
func tagFacts(kinds []string, text string, whole bool) []string {
	var out []string
	for _, k := range kinds {
		if strings.HasPrefix(text, k) {
			out = append(out, "v:"+k)
		} else if whole || !strings.HasPrefix(k, text) {
			out = append(out, "!v:"+k)
		}
	}
	return out
}

// limit: the value is a maximum as it was given.
func limit(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Extract:
		c, _ := callOf(x)
		return c != nil && cname(&c.Call) == "strconv.Atoi"
	}
	return false
}

func lenOf(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	return cname(&c.Call) == "builtin.len" || cname(&c.Call) == "(reflect.Value).Len"
}

// literals lists the constant strings of a slice that is written out.
func literals(p *Prog, v ssa.Value) []string {
	var out []string
	fl := &Flow{P: p, NoCallers: true, Stop: func(v ssa.Value) string {
		if x, ok := v.(*ssa.Slice); ok && (x.Low != nil || x.High != nil) {
			return "part"
		}
		return ""
	}}
	for _, o := range fl.From(v) {
		if o.Label == "part" {
			return nil
		}
		if k, ok := constString(o.V); ok {
			out = append(out, k)
			continue
		}
		if g, ok := o.V.(*ssa.UnOp); ok {
			if gl, ok := g.X.(*ssa.Global); ok {
				out = append(out, p.globalStrings(gl)...)
			}
		}
	}
	return out
}

// globalStrings lists the constant strings a package variable is initialised with.
func (p *Prog) globalStrings(g *ssa.Global) []string {
	var out []string
	if g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) {
				continue
			}
			fl := &Flow{P: p, NoCallers: true}
			for _, o := range fl.From(st.Val) {
				if k, ok := constString(o.V); ok {
					out = append(out, k)
				}
			}
		}
	}
	return out
}

var (
	tagParam = regexp.MustCompile(`^(regex=.+|maxlength=\d+|enum=.+)$`)
	tagPlain = regexp.MustCompile(`^(shellsafe|ipv4|ipv6|ipaddress|duration)$`)
)

// tags: every validation tag in the repository is understood and fits its field.
func tags(p *Prog, r *Report) {
	n := 0
	for _, pk := range p.Pkgs {
		if !strings.HasPrefix(pk.PkgPath, modPath) || isMock(pk.PkgPath) || pk.Types == nil {
			continue
		}
		seen := map[*types.Struct]bool{}
		for e, tv := range pk.TypesInfo.Types {
			st, ok := tv.Type.(*types.Struct)
			if !ok || seen[st] || !tv.IsType() {
				continue
			}
			seen[st] = true
			for i := 0; i < st.NumFields(); i++ {
				tag := strings.TrimSpace(reflect.StructTag(st.Tag(i)).Get("validate"))
				if tag == "" {
					continue
				}
				n++
				fd := st.Field(i)
				ok, why := tagFits(tag, fd.Type())
				pos := p.pos(fd.Pos())
				r.ob("tag", short(pk.PkgPath)+": field "+fd.Name()+" validated by "+tag, ok, pos, why)
				_ = e
			}
		}
	}
	r.need("tag", "validation tags", n, 5)
}

func tagFits(tag string, t types.Type) (bool, string) {
	isString := false
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		isString = true
	}
	isSlice := false
	if _, ok := t.Underlying().(*types.Slice); ok {
		isSlice = true
	}
	switch {
	case tagPlain.MatchString(tag), strings.HasPrefix(tag, "regex") && tagParam.MatchString(tag):
		if strings.HasPrefix(tag, "regex=") {
			if _, err := regexp.Compile(strings.TrimPrefix(tag, "regex=")); err != nil {
				return false, "the expression does not compile"
			}
		}
		return isString, "must be on a string field"
	case tagParam.MatchString(tag):
		return isString || isSlice, "must be on a string or slice field"
	}
	return false, "no validator knows this tag, so the field would not be validated"
}
