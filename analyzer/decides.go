package main

import (
	"fmt"
	"go/constant"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a function decides, compared with a formula over the conditions on its paths. A condition that a path does not
// look at is not known; what is decided on a path has to follow from what is known on it.

type tri int8

const (
	unknown tri = iota
	yes
	no
	whatever // this path does not matter
)

func (a tri) not() tri {
	switch a {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

func every(xs ...tri) tri {
	out := yes
	for _, x := range xs {
		if x == no {
			return no
		}
		if x == unknown {
			out = unknown
		}
	}
	return out
}

func some(xs ...tri) tri {
	for i := range xs {
		xs[i] = xs[i].not()
	}
	return every(xs...).not()
}

// known: the first that is known, of different ways to look at the same.
func known(xs ...tri) tri {
	for _, x := range xs {
		if x != unknown {
			return x
		}
	}
	return unknown
}

// pathOf is what is known on a path.
type pathOf struct {
	have       map[string]bool
	did        map[string]bool
	vals       []constant.Value
	max        int
	out, given string
	cells      ienv
}

// holds: what a place holds in the end, "" when that is not known.
func (o *pathOf) holds(place string) string {
	parts := strings.Split(place, ".")
	at := parts[0]
	for _, f := range parts[1:] {
		y := o.cells[cellOf(at+"."+f)]
		if y == nil {
			at = at + "." + f
			continue
		}
		at = showTerm(y)
		if at == "" {
			at = "\"\""
		}
	}
	if strings.HasPrefix(at, "&") && strings.Contains(at, ".") {
		return "" // never set in what was made here
	}
	return noIdentity(at)
}

// considering: a formula that asks about conditions, with those that are not known on this path either way.
func (o *pathOf) considering(wrong func(ask func(conds ...string) bool) string) string {
	var script []bool
	for {
		n := 0
		asked := map[string]bool{}
		ask := func(conds ...string) bool {
			switch o.is(conds...) {
			case yes:
				return true
			case no:
				return false
			}
			if y, ok := asked[conds[0]]; ok {
				return y
			}
			if n == len(script) {
				script = append(script, false)
			}
			y := script[n]
			n++
			asked[conds[0]] = y
			return y
		}
		if w := wrong(ask); w != "" {
			if n > 0 {
				w += fmt.Sprintf(" if %v", asked)
			}
			return w
		}
		script = script[:n]
		for n > 0 && script[n-1] {
			n--
		}
		if n == 0 {
			return ""
		}
		script = script[:n]
		script[n-1] = true
	}
}

// is: a condition is known to hold, or not to.
func (o *pathOf) is(conds ...string) tri {
	for _, c := range conds {
		c = strings.ReplaceAll(c, ",", ";")
		if holds(o.have, c, true) {
			return yes
		}
		if holds(o.have, c, false) {
			return no
		}
		// the operands of a comparison come in either order
		if a, b, ok := strings.Cut(c, "=="); ok {
			if holds(o.have, b+"=="+a, true) {
				return yes
			}
			if holds(o.have, b+"=="+a, false) {
				return no
			}
		}
		if a, b, ok := strings.Cut(c, "=="); ok && len(o.have) > 0 {
			// it is something else
			for h := range o.have {
				if y, ok := strings.CutSuffix(strings.TrimPrefix(h, "if "), " true"); ok {
					if x, z, ok := strings.Cut(y, "=="); ok && (x == a && z != b && plainName(b) && plainName(z)) {
						return no
					}
				}
			}
		}
	}
	return unknown
}

func plainName(s string) bool { return !strings.ContainsAny(s, "()[]*&<>") }

// has: a list has a turn.
func (o *pathOf) has(list string, n int) tri {
	if n == 0 {
		return o.is("empty(" + list + ")").not()
	}
	return o.is(fmt.Sprintf("%d<len(%s)", n, list))
}

// each: all elements of a list, and none when it is empty.
func (o *pathOf) each(list string, f func(elem string) tri) tri {
	out := yes
	for i := 0; ; i++ {
		if i >= o.max {
			return out
		}
		switch o.has(list, i) {
		case no:
			return out
		case unknown:
			if out == no {
				return no
			}
			// the rest has not been looked at
			return unknown
		}
		out = every(out, f(fmt.Sprintf("%s[%d]", list, i)))
		if out == no {
			return no
		}
	}
}

// exists: some element of a list.
func (o *pathOf) exists(list string, f func(elem string) tri) tri {
	return o.each(list, func(e string) tri { return f(e).not() }).not()
}

// decides: on every path that does not fail, what is given is what the formula says.
func (r *Report) decides(rule string, t *interp, f *ssa.Function, params ienv, what string, want func(o *pathOf) tri) {
	ok, det := true, "is decided by the conditions"
	n := 0
	for _, x := range t.run(f, params) {
		if x.ret == nil {
			continue
		}
		o := &pathOf{have: map[string]bool{}, did: map[string]bool{}, vals: x.vals, max: int(t.turns), cells: x.cells}
		for _, d := range notes(x.effects) {
			if strings.HasPrefix(d, "if ") {
				o.have[d] = true
			} else {
				o.did[d] = true
			}
		}
		got := unknown
		given := "?"
		if len(x.vals) > 0 && x.vals[0] != nil {
			given = showTerm(x.vals[0])
			switch v := x.vals[0]; {
			case v.Kind() == constant.Bool && constant.BoolVal(v):
				got = yes
			case v.Kind() == constant.Bool:
				got = no
			}
		}
		if contradicts(o.have) {
			continue
		}
		if os.Getenv("VERIF_TERMS") != "" && strings.Contains(fname(f)+what, os.Getenv("VERIF_TERMS")) {
			fmt.Println("DECIDES", given, t.p.ipos(x.ret), strings.Join(notes(x.effects), "\n    "))
		}
		n++
		w := want(o)
		if w == whatever {
			continue
		}
		if got == unknown && isTerm(x.vals[0]) {
			// given as it is: what follows from it and from its opposite
			neg := strings.HasPrefix(given, "!")
			c := strings.TrimPrefix(given, "!")
			bad := false
			for _, out := range []bool{true, false} {
				o.have[fmt.Sprintf("if %s %v", strings.ReplaceAll(c, ",", ";"), out)] = true
				w := want(o)
				bad = bad || w == unknown || (w == yes) != (out != neg)
				delete(o.have, fmt.Sprintf("if %s %v", strings.ReplaceAll(c, ",", ";"), out))
			}
			if !bad {
				continue
			}
		}
		if (got == unknown || w != got) && ok {
			ok, det = false, fmt.Sprintf("can give %s at %s when %s", given, t.p.ipos(x.ret), strings.Join(sortedKeys(o.have), " and "))
		}
	}
	if n == 0 {
		ok, det = false, "has no paths"
	}
	r.seen(f)
	r.ob(rule, fname(f)+": "+what, ok, r.P.pos(f.Pos()), det)
}

// contradicts: a path with a condition that both holds and does not.
func contradicts(have map[string]bool) bool {
	for c := range have {
		if y, ok := strings.CutSuffix(c, " true"); ok && have[y+" false"] {
			return true
		}
		// what is nil has no elements
		if y, ok := strings.CutPrefix(c, "if nil=="); ok {
			if y, ok = strings.CutSuffix(y, " true"); ok && have["if empty("+y+") false"] {
				return true
			}
		}
	}
	return false
}

// ended: how a path ends.
func (o *pathOf) ended(how string) bool { return o.out == how }

// does: something that starts with this is done.
func (o *pathOf) does(prefix string) bool { return o.doing(prefix) != "" }

func (o *pathOf) doing(prefix string) string {
	for _, d := range sortedKeys(o.did) {
		if strings.HasPrefix(d, strings.ReplaceAll(prefix, ",", ";")) {
			return d
		}
	}
	return ""
}

// judge: every path is judged by what is known on it, what was done and what is given. What is wrong is said.
func (r *Report) judge(rule string, t *interp, f *ssa.Function, params ienv, what string, wrong func(o *pathOf) string) {
	ok, det := true, ""
	n := 0
	for _, x := range t.run(f, params) {
		if (x.ret == nil) != (t.ends != nil) {
			continue
		}
		o := &pathOf{have: map[string]bool{}, did: map[string]bool{}, vals: x.vals, max: int(t.turns), cells: x.cells}
		for _, d := range notes(x.effects) {
			if strings.HasPrefix(d, "if ") {
				o.have[d] = true
			} else {
				o.did[d] = true
			}
		}
		if contradicts(o.have) {
			continue
		}
		if x.ret != nil && len(x.vals) > 0 {
			k := len(x.vals) - 1
			o.given = noIdentity(showTerm(x.vals[0]))
			switch e := x.vals[k]; {
			case !isErr(x.ret.Results[k].Type()):
			case sameConst(e, isNil), holds(o.have, showTerm(e)+"==nil", true):
				o.out = "succeed"
			case sameConst(e, isSet), strings.Contains(x.effects, "!err"), namesError(showTerm(e), f), holds(o.have, showTerm(e)+"==nil", false):
				o.out = "fail"
			default:
				o.out = noIdentity(showTerm(e))
			}
		}
		if os.Getenv("VERIF_TERMS") != "" && strings.Contains(fname(f)+what, os.Getenv("VERIF_TERMS")) {
			fmt.Println("JUDGE", o.out, "gives", o.given, strings.Join(notes(x.effects), "\n    "))
		}
		n++
		if w := wrong(o); w != "" && ok {
			ok, det = false, w
			if x.ret != nil {
				det += " at " + t.p.ipos(x.ret)
			}
			det += " when " + strings.Join(sortedKeys(o.have), " and ")
		}
	}
	if n == 0 {
		ok, det = false, "has no paths"
	}
	r.seen(f)
	r.ob(rule, fname(f)+": "+what, ok, r.P.pos(f.Pos()), det)
}
