package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What concrete types an interface value may hold, for type assertions that would panic.

type dynTypes struct {
	P      *Prog
	stores map[string][]*ssa.Store // by field
}

func newDynTypes(p *Prog) *dynTypes {
	d := &dynTypes{P: p, stores: map[string][]*ssa.Store{}}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						d.stores[fieldKey(fa)] = append(d.stores[fieldKey(fa)], st)
					}
				}
			}
		}
	}
	return d
}

// never lists the origins of an interface value that may not hold a type.
func (d *dynTypes) wrong(v ssa.Value, want types.Type, at ssa.Instruction) []Origin {
	iface, toIface := want.Underlying().(*types.Interface)
	fits := func(t types.Type) bool {
		if toIface {
			return types.Implements(t, iface)
		}
		return types.Identical(t, want)
	}
	var out []Origin
	fl := &Flow{P: d.P}
	fl.Stop = func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			if fits(x.X.Type()) {
				return "fits"
			}
			return "!holds " + typeName(x.X.Type())
		case *ssa.ChangeInterface:
			if toIface && fits(x.X.Type()) {
				return "fits"
			}
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 && types.Identical(ta.AssertedType, want) {
				return "fits"
			}
		case *ssa.TypeAssert:
			if types.Identical(x.AssertedType, want) {
				return "fits"
			}
		}
		if i, ok := v.(ssa.Instruction); ok && i.Parent() == at.Parent() && d.looked(v, want, at) {
			return "fits"
		}
		return ""
	}
	fl.Thru = func(v ssa.Value) []ssa.Value {
		k := loadedField(v)
		if k == "" || !unexported(k) {
			return nil
		}
		var out []ssa.Value
		for _, st := range d.stores[k] {
			out = append(out, st.Val)
		}
		return out
	}
	if d.looked(v, want, at) {
		return nil
	}
	for _, o := range fl.From(v) {
		if o.Label != "fits" {
			out = append(out, o)
		}
	}
	return out
}

var kindNames = map[int64]string{1: "bool", 2: "int", 6: "int64", 14: "float64", 24: "string"}

func unexported(k string) bool {
	for i := len(k) - 1; i > 0; i-- {
		if k[i-1] == '.' {
			return k[i] >= 'a' && k[i] <= 'z'
		}
	}
	return false
}

// looked: a test on the way here found that v holds the type.
func (d *dynTypes) looked(v ssa.Value, want types.Type, at ssa.Instruction) bool {
	k := vkey(v)
	for b := at.Block(); b != nil; b = b.Idom() {
		p := b.Idom()
		if p == nil || len(b.Preds) != 1 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		o := True
		if p.Succs[1] == b {
			o = False
		}
		if d.says(iff.Cond, o, k, want) {
			return true
		}
	}
	return false
}

func (d *dynTypes) says(cond ssa.Value, o Outcome, k string, want types.Type) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, o = u.X, o.flip()
	}
	if o != True {
		return false
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		// reflect.ValueOf(v).Kind() == reflect.String
		b, isBasic := want.(*types.Basic)
		if !isBasic || x.Op != token.EQL {
			return false
		}
		kind, c := x.X, x.Y
		if _, ok := kind.(*ssa.Const); ok {
			kind, c = c, kind
		}
		n, ok := constInt(c)
		if !ok || kindNames[n] != b.Name() {
			return false
		}
		kc, _ := callOf(kind)
		if kc == nil || cname(&kc.Call) != "(reflect.Value).Kind" {
			return false
		}
		vc, _ := callOf(kc.Call.Args[0])
		return vc != nil && nameIn(cname(&vc.Call), "reflect.ValueOf", "reflect.Indirect") && vkey(vc.Call.Args[0]) == k
	case *ssa.Extract:
		ta, ok := x.Tuple.(*ssa.TypeAssert)
		return ok && x.Index == 1 && vkey(ta.X) == k && types.Identical(ta.AssertedType, want)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !d.P.InRepo[g] {
			return false
		}
		for n, a := range x.Call.Args {
			if vkey(a) != k {
				continue
			}
			all, some := true, false
			for _, b := range g.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				some = true
				if c, isC := constBool(ret.Results[0]); isC && !c {
					continue
				}
				if !d.says(ret.Results[0], True, vkey(g.Params[n]), want) && !d.looked(g.Params[n], want, ret) {
					all = false
				}
			}
			if all && some {
				return true
			}
		}
	}
	return false
}

// assertRule: assertions that would panic are only made on values that hold the type.
func assertRule(p *Prog, r *Report) {
	const rule = "assert"
	d := newDynTypes(p)
	n := 0
	for _, f := range p.Funcs {
		if outsideRuntime(f) || fnPkgPath(f) == modPath+"/plugin" {
			continue // plugins are registered by the program itself when it starts
		}
		cnt := map[string]int{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ta, ok := i.(*ssa.TypeAssert)
				if !ok || ta.CommaOk {
					continue
				}
				if it, ok := ta.X.Type().Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
					continue
				}
				what := "as " + types.TypeString(ta.AssertedType, func(p *types.Package) string { return p.Name() })
				cnt[what]++
				name := fmt.Sprintf("asserted %s, %d", what, cnt[what])
				n++
				if typ := typeName(ta.X.Type()); typ == "providers/data.Query" {
					declared := queryType(p, f)
					r.at(rule, ta, name, declared == types.TypeString(ta.AssertedType, nil), "the query is declared as "+declared)
					continue
				}
				bad := ""
				for _, o := range d.wrong(ta.X, ta.AssertedType, ta) {
					switch {
					case strings.HasPrefix(o.Label, "!"):
						bad = o.Label[1:]
					case strings.HasPrefix(o.Label, "?"):
						bad = "can hold " + o.Label[1:]
					case strings.HasPrefix(o.Label, "call:(encoding/json"), strings.HasPrefix(o.Label, "field:"):
						bad = "comes from " + o.Label
					}
				}
				r.at(rule, ta, name, bad == "", bad)
			}
		}
	}
	r.need(rule, "assertions", n, 10)
	n = 0
	for _, f := range p.Funcs {
		if outsideRuntime(f) {
			continue
		}
		calls(f, func(c ssa.CallInstruction) {
			if !c.Common().IsInvoke() || c.Common().Method.Name() != "Run" || typeName(c.Common().Value.Type()) != "providers/data.Plugin" {
				return
			}
			n++
			fl := &Flow{P: p, NoCallers: true}
			fl.Stop = func(v ssa.Value) string {
				if cc, i := callOf(v); cc != nil && i <= 0 && strings.HasSuffix(cname(&cc.Call), "InputItem).ConvertStringValue") {
					return "converted"
				}
				if mi, ok := v.(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), types.Typ[types.String]) {
					return "string"
				}
				return ""
			}
			bad := ""
			for _, o := range fl.From(c.Common().Args[1]) {
				if o.Label != "converted" && o.Label != "string" && o.Label != "?nil" {
					bad = o.Label
				}
			}
			r.at(rule, c, "queries have the type declared", bad == "", "comes from "+bad)
		})
	}
	r.need(rule, "queries to data plugins", n, 2)
}

// queryType: the type the data plugin f belongs to declares its queries to have.
func queryType(p *Prog, f *ssa.Function) string {
	declared := "nothing"
	rv := f.Signature.Recv()
	if rv == nil {
		return declared
	}
	for _, g := range p.Funcs {
		if g.Signature.Recv() == nil || typeName(g.Signature.Recv().Type()) != typeName(rv.Type()) {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "providers/agent/mcorpc/ddl/common.InputItem.Type" {
					v := st.Val
					if u, ok := v.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							if vs := p.globalStores(g); len(vs) == 1 {
								v = vs[0]
							}
						}
					}
					if s, ok := constString(v); ok && (declared == "nothing" || declared == s) {
						declared = s
					} else {
						declared = "several types"
					}
				}
			}
		}
	}
	return declared
}
