package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Filters: a node acts on a request only when it matches all of its filters, and what was asked for is what is matched.

func init() {
	register(&Check{ID: "P06", Level: "other",
		Rule:        "what each filter decides on each path follows from what the formula of that filter says about the conditions on the path; requests are matched against the filter they carry; filters that are added, parsed and sent are the ones given",
		Explanation: "Every path through the matching of agents, classes, identities, facts and compound queries, up to three elements per list, is explored with values named by where they come from. What is given on a path is compared with a formula over the conditions known on it. Adding, parsing and carrying filters is compared with what has to be done in each case.",
		Run:         filters})
}

func filters(p *Prog, r *Report) {
	listFilters(p, r)
	factFilters(p, r)
	compoundFilters(p, r)
	allFilters(p, r)
	buildFilters(p, r)
}

func listFilters(p *Prog, r *Report) {
	for _, d := range []struct{ fn, fold string }{
		{"filter/agents.Match", ""},
		{"filter/classes.Match", "(?i)"},
		{"filter/identity.Match", ""},
	} {
		f := r.anchor("list", d.fn)
		if f == nil {
			continue
		}
		t := &interp{p: p, terms: true, conds: true, counts: true, turns: 3, compare: true, inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg }}
		matches := func(o *pathOf, n, k string) tri {
			isRe := every(o.is("HasPrefix("+n+" /)"), o.is("HasSuffix("+n+" /)"))
			re := unknown
			for _, c := range []string{"TrimSuffix(TrimPrefix(" + n + " /) /)", "TrimPrefix(TrimSuffix(" + n + " /) /)"} {
				// what is no expression matches nothing
				c = "MatchString(" + d.fold + c + " " + k + ")"
				if re = known(re, o.is(c)); o.is(c+"#1==nil") == no {
					re = no
				}
			}
			plain := o.is(k + "==" + n)
			if d.fold != "" {
				plain = o.is("EqualFold("+k+" "+n+")", "EqualFold("+n+" "+k+")")
			}
			if d.fn == "filter/identity.Match" {
				// an expression that is the name itself is good too
				return some(every(isRe, re), known(plain, o.is(k+"==TrimSuffix(TrimPrefix("+n+" /) /)", k+"==TrimPrefix(TrimSuffix("+n+" /) /)")))
			}
			return some(every(isRe, re), every(isRe.not(), plain))
		}
		if d.fn == "filter/identity.Match" {
			r.decides("list", t, f, paramTerms(f, "needles", "known"), "any element matches", func(o *pathOf) tri {
				return o.exists("needles", func(n string) tri { return matches(o, n, "known") })
			})
			continue
		}
		r.decides("list", t, f, paramTerms(f, "needles", "known"), "all elements match something known", func(o *pathOf) tri {
			return every(o.has("needles", 0), o.each("needles", func(n string) tri {
				if d.fold == "" && every(o.is("HasPrefix("+n+" /)"), o.is("HasSuffix("+n+" /)")) == no && o.is("Contains(known "+n+")") != unknown {
					return o.is("Contains(known " + n + ")")
				}
				return o.exists("known", func(k string) tri { return matches(o, n, k) })
			}))
		})
	}
}

func factFilters(p *Prog, r *Report) {
	f := r.anchor("facts", "filter/facts.HasFactJSON")
	if f == nil {
		return
	}
	const (
		fact = "GetBytes(facts fact)"
		re   = "Compile((?i)TrimRight(TrimLeft(value /) /))"
		fl   = "ParseFloat(value 64)"
		num  = "Atoi(value)"
	)
	isBool := func(o *pathOf) tri {
		return known(every(o.is("ParseBool(value)#1==nil"), o.is("ParseBool(value)")), every(o.is("ParseBool(ToLower(value))#1==nil"), o.is("ParseBool(ToLower(value))")))
	}
	compare := func(o *pathOf, op, a, b string) tri {
		switch op {
		case "<":
			return o.is(a + "<" + b)
		case ">":
			return o.is(b + "<" + a)
		case "<=":
			return o.is(b + "<" + a).not()
		case ">=":
			return o.is(a + "<" + b).not()
		case "==":
			return o.is(a + "==" + b)
		}
		return o.is(a + "==" + b).not()
	}
	number := func(o *pathOf, op string) tri {
		ok := o.is(fl + "#1==nil")
		fraction := some(o.is("Contains(value .)"), every(o.is("Contains("+fact+".Raw .)"), ok))
		whole := every(o.is(num+"#1==nil"), compare(o, op, fact+".Int()", num))
		switch op {
		case "==":
			whole = known(o.is("Itoa("+fact+".Int())==value"), whole)
		case "!=":
			whole = known(o.is("Itoa("+fact+".Int())==value").not(), whole)
		case "=~":
			return every(o.is(re+"#1==nil"), some(
				every(o.is("Contains(value .)"), o.is(re+".MatchString(Sprintf(%.4f "+fact+".Float()))")),
				every(o.is("Contains(value .)").not(), o.is(re+".MatchString(Itoa("+fact+".Int()))"))))
		}
		return some(every(fraction, ok, compare(o, op, fact+".Float()", fl)), every(fraction.not(), whole))
	}
	text := func(o *pathOf, op string) tri {
		switch op {
		case "==":
			return o.is("EqualFold("+fact+".String() value)", "EqualFold(value "+fact+".String())")
		case "!=":
			return o.is("EqualFold("+fact+".String() value)", "EqualFold(value "+fact+".String())").not()
		case "=~":
			return every(o.is(re+"#1==nil"), o.is(re+".MatchString("+fact+".String())"))
		}
		return compare(o, op, "ToLower("+fact+".String())", "ToLower(value)")
	}
	typed := func(o *pathOf, k string) tri { return o.is(fact + ".Type==" + k) }
	for _, op := range []string{"==", "=~", "<=", ">=", "<", ">", "!=", "??"} {
		for _, typ := range []string{"missing", "number", "string", "true", "false", "other", "false (as the tests have it)"} {
			op, typ, asTested := op, typ, false
			if y, ok := strings.CutSuffix(typ, " (as the tests have it)"); ok {
				if op != "!=" {
					continue
				}
				typ, asTested = y, true
			}
			what := op + " of " + typ
			if asTested {
				what += ", as the tests have it"
			}
			t := &interp{p: p, terms: true, conds: true, compare: true, inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg && g.Name() != "JSON" }}
			e := paramTerms(f, "fact", "", "value", "facts", "log")
			e[f.Params[1]] = constant.MakeString(op)
			r.decides("facts", t, f, e, what, func(o *pathOf) tri {
				is := "other"
				switch {
				case o.is(fact+".Exists()") == no:
					is = "missing"
				case op == "??" || o.is(fact+".Exists()") == unknown:
				case typed(o, "1") == yes:
					is = "false"
				case typed(o, "2") == yes:
					is = "number"
				case typed(o, "3") == yes:
					is = "string"
				case typed(o, "4") == yes:
					is = "true"
				}
				ordered := nameIn(op, "<", ">", "<=", ">=", "??")
				switch {
				case is != typ:
					return whatever
				case is == "number":
					return number(o, op)
				case is == "string":
					return text(o, op)
				case asTested:
					return isBool(o).not()
				case (is == "true" && op == "!=" || is == "false" && op != "!=") && !ordered:
					return isBool(o).not()
				case (is == "true" || is == "false") && !ordered:
					return isBool(o)
				}
				return no
			})
		}
	}
	// all facts
	if g := r.anchor("facts", "filter/facts.MatchFacts"); g != nil {
		t := &interp{p: p, terms: true, conds: true, counts: true, turns: 3, compare: true}
		r.decides("facts", t, g, paramTerms(g, "filters", "facts", "log"), "all filters match", func(o *pathOf) tri {
			return every(o.has("filters", 0), o.each("filters", func(n string) tri {
				h := "HasFactJSON(" + n + "[0] " + n + "[1] " + n + "[2] facts log)"
				return every(o.is(h+"#1==nil"), o.is(h))
			}))
		})
	}
}

func compoundFilters(p *Prog, r *Report) {
	const rule = "compound"
	if f := r.anchor(rule, "filter/compound.MatchExprString"); f != nil {
		t := &interp{p: p, terms: true, conds: true, counts: true, turns: 3, compare: true}
		r.decides(rule, t, f, paramTerms(f, "queries", "facts", "classes", "agents", "df", "log"), "all queries match", func(o *pathOf) tri {
			return every(o.has("queries", 0), o.each("queries", func(n string) tri {
				comp := "CompileExprQuery(" + n + "[0][expr] df)"
				match := "MatchExprProgram(" + comp + " facts classes agents df log)"
				return every(o.is("len("+n+")==1"), o.is("has("+n+"[0][expr])"), o.is(comp+"#1==nil"), o.is(match+"#1==nil"), o.is(match))
			}))
		})
	}
	if f := r.anchor(rule, "filter/compound.MatchExprProgram"); f != nil {
		t := &interp{p: p, terms: true, strict: true, record: func(n string) bool { return n == "put" }, inline: func(g *ssa.Function) bool { return false }}
		env := "put(EmptyEnv(df) "
		r.does(rule, t, f, paramTerms(f, "prog", "facts", "classes", "agents", "df", "log"), "what a query sees and gives", []string{
			env + "agents agents)", env + "classes classes)", env + "facts facts)", env + "include includeFunc)", env + "semver semverFunc)",
			env + "fact factFunc(facts))", env + "with matchFunc(facts classes agents log))"}, "Run(prog EmptyEnv(df))")
	}
	free := func(outer *ssa.Function, names ...string) (*ssa.Function, ienv) {
		if outer == nil || len(outer.AnonFuncs) != 1 {
			return nil, nil
		}
		h := outer.AnonFuncs[0]
		e := paramTerms(h, "query")
		for _, fv := range h.FreeVars {
			for i, q := range outer.Params {
				if q.Name() == fv.Name() && i < len(names) {
					e[fv] = mkTerm(names[i])
				}
			}
		}
		return h, e
	}
	if h, e := free(r.anchor(rule, "filter/compound.matchFunc"), "facts", "classes", "agents", "log"); h != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, name: qualified}
		r.decides(rule, t, h, e, "with()", func(o *pathOf) tri {
			const parsed = "ParseFactFilterString(query)"
			return some(
				every(o.is(parsed+"#1==nil"), o.is("MatchFacts(["+parsed+"] facts log)")),
				every(o.is(parsed+"#1==nil").not(), some(o.is("classes.Match([query] classes)"), o.is("agents.Match([query] agents)"))))
		})
	}
	if h, e := free(r.anchor(rule, "filter/compound.factFunc"), "facts"); h != nil {
		t := &interp{p: p, terms: true}
		r.does(rule, t, h, e, "fact()", nil, "GetBytes(facts query).Value()")
	}
	if f := r.anchor(rule, "filter/compound.includeFunc"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true}
		r.decides(rule, t, f, paramTerms(f, "hay", "needle"), "include()", func(o *pathOf) tri {
			return o.exists("hay", func(h string) tri {
				// a number is converted first
				return o.is("Equal("+h+" needle)", "Equal(needle "+h+")", "Equal("+h+" set)", "Equal(set "+h+")")
			})
		})
	}
	if f := r.anchor(rule, "filter/compound.semverFunc"); f != nil {
		t := &interp{p: p, terms: true, strict: true}
		r.does(rule, t, f, paramTerms(f, "value", "cmp"), "semver()", nil, "NewConstraint(cmp).Check(NewVersion(value))")
	}
}

// qualified: functions of several packages with the same name are told apart.
func qualified(c ssa.CallInstruction) string {
	if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Signature.Recv() == nil && g.Name() == "Match" {
		return g.Pkg.Pkg.Name() + ".Match"
	}
	return ""
}

func allFilters(p *Prog, r *Report) {
	const rule = "filters"
	if f := r.anchor(rule, "(*protocol.Filter).MatchServerRequest"); f != nil {
		t := &interp{p: p, terms: true, conds: true, counts: true, turns: 3, compare: true, name: qualified, inline: func(g *ssa.Function) bool {
			return g.Pkg == f.Pkg && !nameIn(g.Name(), "FactFilters", "Empty")
		}}
		r.decides(rule, t, f, paramTerms(f, "f", "request", "si", "log"), "all kinds match", func(o *pathOf) tri {
			const q = "request.Filter()"
			kind := func(name, match string) tri {
				return some(known(o.is("empty("+q+"."+name+")"), o.is("empty("+q+"."+name+"Filters())")), o.is(match))
			}
			all := []tri{
				kind("Identity", "identity.Match("+q+".Identity si.Identity())"),
				kind("Agent", "agents.Match("+q+".Agent si.KnownAgents())"),
				kind("Class", "classes.Match("+q+".Class si.Classes())"),
				kind("Fact", "MatchFacts("+q+".FactFilters() si.Facts() log)"),
				kind("Compound", "MatchExprString("+q+".Compound si.Facts() si.Classes() si.KnownAgents() si.DataFuncMap() log)"),
			}
			none := []tri{}
			for _, n := range []string{"Identity", "Agent", "Class", "Fact", "Compound"} {
				none = append(none, known(o.is("empty("+q+"."+n+")"), o.is("empty("+q+"."+n+"Filters())")))
			}
			if o.is(q+".Empty()") == no && every(none...) == yes {
				return whatever // this can not be
			}
			return some(o.is(q+".Empty()"), every(all...))
		})
	}
	if f := r.anchor(rule, "(*protocol.Filter).Empty"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true}
		r.decides(rule, t, f, paramTerms(f, "f"), "no filters at all", func(o *pathOf) tri {
			var xs []tri
			for _, n := range []string{"Fact", "Class", "Agent", "Identity", "Compound"} {
				x := o.is("empty(f." + n + ")")
				if x == unknown && o.is("f."+n+"==nil") == yes {
					x = yes
				}
				xs = append(xs, x)
			}
			return every(xs...)
		})
	}
}

func buildFilters(p *Prog, r *Report) {
	const rule = "build"
	rec := func(n string) bool { return n == "put" || strings.HasPrefix(n, "set ") || strings.HasPrefix(n, "Add") }
	const (
		set   = "set protocol.Filter."
		valid = "f.contains(b [>= <= < > != == =~])"
	)
	add := func(name, kind string, blank bool, have string) {
		f := r.anchor(rule, "(*protocol.Filter)."+name)
		if f == nil {
			return
		}
		cases := []passCase{{when: []string{"empty(a) false", have + " false"}, want: []string{set + kind + "=[f." + kind + " a]"}}, {when: []string{have + " true"}}}
		if blank {
			cases = append(cases, passCase{when: []string{"empty(a) true"}})
		}
		t := &interp{p: p, terms: true, conds: true, record: rec, inline: nothing}
		r.perPass(rule, t, f, paramTerms(f, "f", "a"), "adds to its own kind", cases...)
	}
	add("AddIdentityFilter", "Identity", false, "f.contains(a f.Identity)")
	add("AddAgentFilter", "Agent", true, "f.contains(a f.Agent)")
	add("AddClassFilter", "Class", false, "f.contains(a f.Class)")
	if f := r.anchor(rule, "(*protocol.Filter).AddCompoundFilter"); f != nil {
		t := &interp{p: p, terms: true, conds: true, record: rec, inline: nothing}
		r.perPass(rule, t, f, paramTerms(f, "f", "a"), "adds the query",
			passCase{when: []string{"empty(a) false"}, want: []string{"put([] expr a)", set + "Compound=[f.Compound [[]]]", "succeed"}},
			passCase{when: []string{"empty(a) true"}, want: []string{"succeed"}})
	}
	if f := r.anchor(rule, "(*protocol.Filter).AddFactFilter"); f != nil {
		t := &interp{p: p, terms: true, conds: true, record: rec, inline: nothing}
		one := "set protocol.FactFilter."
		r.perPass(rule, t, f, paramTerms(f, "f", "a", "b", "c"), "adds what is looked for",
			passCase{when: []string{valid + " true"}, want: []string{one + "Fact=a", one + "Operator=b", one + "Value=c", set + "Fact=[f.Fact &FactFilter]", "succeed"}},
			passCase{when: []string{valid + " false"}, want: []string{"fail"}})
	}
	if f := r.anchor(rule, "(*protocol.Filter).contains"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, counts: true, turns: 2}
		r.decides(rule, t, f, paramTerms(f, "f", "needle", "list"), "is listed", func(o *pathOf) tri {
			return known(o.is("Contains(list needle)"), o.exists("list", func(x string) tri { return o.is(x + "==needle") }))
		})
	}
	if f := r.anchor(rule, "(*protocol.Filter).FactFilters"); f != nil {
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, record: func(n string) bool { return n == "append" }}
		r.perPass(rule, t, f, paramTerms(f, "f"), "gives all filters",
			passCase{want: []string{"append([f.Fact[].Fact f.Fact[].Operator f.Fact[].Value])"}})
		oneByOne(p, r, rule, f)
	}
	for _, d := range []struct{ fn, call string }{{"AgentFilter", "AddAgentFilter"}, {"ClassFilter", "AddClassFilter"}, {"IdentityFilter", "AddIdentityFilter"}, {"CompoundFilter", "AddCompoundFilter"}, {"FactFilter", ""}, {"CombinedFilter", ""}} {
		f := r.anchor(rule, "filter."+d.fn)
		if f == nil {
			continue
		}
		if len(f.AnonFuncs) != 1 {
			r.ob(rule, fname(f)+": adds each", false, p.pos(f.Pos()), "is not a function that gives one filter")
			continue
		}
		h := f.AnonFuncs[0]
		e := paramTerms(h, "pf")
		for _, fv := range h.FreeVars {
			e[fv] = mkTerm("f")
		}
		t := &interp{p: p, terms: true, conds: true, record: rec, ends: backEdge, inline: nothing}
		const (
			one   = "ParseFactFilterString(f[])"
			part  = "Split(f[]  )[]"
			fact  = "ParseFactFilterString(" + part + ")"
			parts = "?<len(Split(f[]  )) true"
		)
		switch d.fn {
		case "FactFilter":
			addIt := "pf.AddFactFilter(" + one + ".Fact " + one + ".Operator " + one + ".Value)"
			r.perPass(rule, t, h, e, "adds each",
				passCase{when: []string{"empty(f[]) true"}},
				passCase{when: []string{"empty(f[]) false", one + "#1==nil true"}, want: []string{addIt}})
			r.does(rule, &interp{p: p, terms: true, strict: true, inline: nothing}, h, e, "gives errors", nil)
		case "CombinedFilter":
			r.perPass(rule, t, h, e, "adds each",
				passCase{when: []string{"?<len(Split(f[]  )) false"}},
				passCase{when: []string{parts, "empty(" + part + ") true"}},
				passCase{when: []string{parts, "empty(" + part + ") false", fact + "#1==nil false"}, want: []string{"pf.AddClassFilter(" + part + ")"}},
				passCase{when: []string{parts, "empty(" + part + ") false", fact + "#1==nil true"}, want: []string{"pf.AddFactFilter(" + fact + ".Fact " + fact + ".Operator " + fact + ".Value)"}})
		default:
			r.perPass(rule, t, h, e, "adds each",
				passCase{when: []string{"empty(f[]) true"}},
				passCase{when: []string{"empty(f[]) false"}, want: []string{"pf." + d.call + "(f[])"}})
		}
		if d.fn == "FactFilter" {
			untilError(p, r, rule, h)
			continue
		}
		oneByOne(p, r, rule, h)
	}
	if f := r.anchor(rule, "filter.NewFilter"); f != nil {
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, record: func(n string) bool { return strings.HasPrefix(n, "fs[]") }, inline: nothing}
		r.perPass(rule, t, f, paramTerms(f, "fs"), "applies each", passCase{want: []string{"fs[](NewFilter())"}})
		r.does(rule, &interp{p: p, terms: true, strict: true, inline: nothing}, f, paramTerms(f, "fs"), "gives errors", nil, "NewFilter()")
		untilError(p, r, rule, f)
	}
	parseFacts(p, r)
	carriesFilter(p, r)
}

// carriesFilter: the filter asked for is the one that is sent, and the one that is matched.
func carriesFilter(p *Prog, r *Report) {
	const rule = "carry"
	if f := r.anchor(rule, "(*choria.Framework).NewRequestFromMessage"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return n == "SetFilter" || n == "NewFilter" }}
		const (
			filter = "msg.Filter()==nil"
			req    = "fw.NewRequest(version msg.Agent() msg.SenderID() msg.CallerID() msg.TTL() msg.RequestID() msg.Collective())"
		)
		cases := []passCase{{when: []string{"request==msg.Type() false", "msg.Type()==direct_request false", "service_request==msg.Type() false"}, want: []string{"fail"}}}
		for _, typ := range []string{"request==msg.Type() true", "msg.Type()==direct_request true", "service_request==msg.Type() true"} {
			cases = append(cases,
				passCase{when: []string{typ, req + "#1==nil false"}, want: []string{"fail"}},
				passCase{when: []string{typ, req + "#1==nil true", filter + " false"}, want: []string{req + ".SetFilter(msg.Filter())", "succeed"}},
				passCase{when: []string{typ, req + "#1==nil true", filter + " true"}, want: []string{req + ".NewFilter()", "succeed"}})
		}
		r.perPass(rule, t, f, paramTerms(f, "fw", "version", "msg"), "the filter of a request", cases...)
	}
	for _, typ := range []struct{ pkg, typ, field string }{{"protocol/v1", "RequestEnvelope", "Envelope"}, {"protocol/v2", "ReqEnvelope", "ReqEnvelope"}} {
		f := r.anchor(rule, "(*"+typ.pkg+".Request).SetFilter")
		if f == nil {
			continue
		}
		t := &interp{p: p, terms: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
		r.does(rule, t, f, paramTerms(f, "r", "filter"), "keeps the filter", []string{"set " + typ.pkg + "." + typ.typ + ".Filter=filter"})
		if g := r.anchor(rule, "(*"+typ.pkg+".Request).Filter"); g != nil {
			have := "r." + typ.field + ".Filter"
			t := &interp{p: p, terms: true, conds: true, inline: nothing}
			ok, n := true, 0
			for _, x := range t.run(g, paramTerms(g, "r")) {
				if x.ret == nil || len(x.vals) == 0 {
					continue
				}
				n++
				o := &pathOf{have: map[string]bool{}}
				for _, d := range notes(x.effects) {
					o.have[d] = true
				}
				// a new one when there is none
				ok = ok && (showTerm(x.vals[0]) == have && o.is(have+"==nil") != yes || showTerm(x.vals[0]) == "NewFilter()" && o.is(have+"==nil") == yes)
			}
			r.seen(g)
			r.ob(rule, fname(g)+": gives the filter", ok && n > 0, p.pos(g.Pos()), "can give something else")
		}
	}
	if f := r.anchor(rule, "(*server/discovery.Manager).ShouldProcess"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing}
		r.decides(rule, t, f, paramTerms(f, "mgr", "request"), "matches the filter of the request", func(o *pathOf) tri {
			for h := range o.have {
				// the logger does not matter
				if y, ok := strings.CutPrefix(h, "if request.Filter().MatchServerRequest(request mgr.si "); ok {
					if strings.HasSuffix(y, " true") {
						return yes
					}
					return no
				}
			}
			return unknown
		})
	}
	for _, d := range []struct {
		fn, read, match string
		params          []string
	}{
		{"filter/facts.MatchFile", "JSON(file log)", "MatchFacts(filters JSON(file log) log)", []string{"filters", "file", "log"}},
		{"filter/classes.MatchFile", "ReadClasses(file)", "Match(filters ReadClasses(file))", []string{"filters", "file", "log"}},
	} {
		f := r.anchor(rule, d.fn)
		if f == nil {
			continue
		}
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing}
		r.decides(rule, t, f, paramTerms(f, d.params...), "matches what is in the file", func(o *pathOf) tri {
			return every(o.is(d.read+"#1==nil"), o.is(d.match))
		})
	}
	if f := r.anchor(rule, "filter/compound.MatchExprStringFiles"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing}
		r.decides(rule, t, f, paramTerms(f, "queries", "facts", "classes", "agents", "log"), "matches what is in the files", func(o *pathOf) tri {
			const c, j = "ReadClasses(classes)", "JSON(facts log)"
			return every(o.is(c+"#1==nil"), o.is(j+"#1==nil"), o.is("MatchExprString(queries "+j+" "+c+" agents nil log)"))
		})
	}
}

// untilError: the loops of a function visit all, until one fails.
func untilError(p *Prog, r *Report, rule string, f *ssa.Function) {
	n := 0
	for _, l := range loopsOf(f) {
		n++
		r.ob(rule, fmt.Sprintf("%s: loop %d does not stop before the last one unless it fails", fname(f), n), l.full && l.untilError(), p.pos(f.Pos()), "the loop can be left early, or does not visit all")
	}
	r.need(rule, fname(f)+": loops", n, 1)
}

// nothing: no function is looked into.
func nothing(*ssa.Function) bool { return false }

// parseFacts: what a fact filter given as a string becomes.
func parseFacts(p *Prog, r *Report) {
	const rule = "parse"
	f := r.anchor(rule, "filter/facts.ParseFactFilterString")
	if f == nil {
		return
	}
	t := &interp{p: p, terms: true, conds: true, inline: nothing}
	ok, det := true, "gives what is left and right of the operator, and the operator it stands for"
	n := 0
	for _, x := range t.run(f, paramTerms(f, "f")) {
		if x.ret == nil || len(x.vals) < 2 || sameConst(x.vals[1], isSet) {
			continue
		}
		o := &pathOf{have: map[string]bool{}}
		for _, d := range notes(x.effects) {
			o.have[d] = true
		}
		if contradicts(o.have) {
			continue
		}
		got := showTerm(x.vals[0])
		good := false
		for _, at := range []string{"[0]", "[]"} {
			m := "validOperators.FindAllStringIndex(f -1)" + at
			left, op, right := "TrimSpace(f[:"+m+"[0]])", "f["+m+"[0]:"+m+"[1]]", "TrimSpace(f["+m+"[1]:])"
			regex := every(o.is(right+"[0]==47"), o.is(right+"[(len("+right+")-1)]==47"))
			if re := every(o.is("HasPrefix("+right+" /)"), o.is("HasSuffix("+right+" /)")); regex == unknown {
				regex = re
			}
			becomes := op
			for from, to := range map[string]string{"=": "==", "=<": "<=", "=>": ">="} {
				if o.is(op+"=="+from) == yes {
					becomes = to
				}
			}
			if regex == yes {
				becomes = "=~"
			} else if regex == unknown {
				continue
			}
			others := o.is(op+"===") == no && o.is(op+"===<") == no && o.is(op+"===>") == no
			if becomes == op && !others {
				continue
			}
			good = good || got == "["+left+" "+becomes+" "+right+"]"
		}
		n++
		if !good && ok {
			ok, det = false, "can give "+got+" at "+p.ipos(x.ret)+" when "+strings.Join(sortedKeys(o.have), " and ")
		}
	}
	if n == 0 {
		ok, det = false, "never works"
	}
	r.seen(f)
	r.ob(rule, fname(f)+": what is given", ok, p.pos(f.Pos()), det)
}
