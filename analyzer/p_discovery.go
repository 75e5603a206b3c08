package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Discovery: the nodes that are found are those the filter is about.

func init() {
	register(&Check{ID: "D02", Level: "other",
		Rule:        "discovery that succeeds gives what the chosen method finds for the filter, collective, timeout and options asked for: names alone when only names are asked for, every reply to a broadcast carrying the filter, every inventory node that matches all filters, every name in a file, what the command or PuppetDB query built from all parts of the filter gives; failures are errors and not fewer nodes",
		Explanation: "Every path through each discovery method, the choice of method, the merging and defaulting of options and the making of filters, for lists up to two elements and each combination of filters, is explored with values named by where they come from. What is given, sent, asked and stored on a path is compared with what the conditions on it call for.",
		Run:         discovery})
}

const discPkg = "providers/discovery/"

func discovery(p *Prog, r *Report) {
	broadcastDiscovery(p, r)
	inventoryDiscovery(p, r)
	flatfileDiscovery(p, r)
	externalDiscovery(p, r)
	puppetDiscovery(p, r)
	chosenDiscovery(p, r)
	madeFilters(p, r)
}

// lens presets how long lists are.
func lens2(e ienv, n int64, lists ...string) ienv {
	for _, l := range lists {
		e[cellOf(lenMark+l)] = constant.MakeInt64(n)
	}
	return e
}

// failsOnly: a path may fail when one of these is known not to hold.
func (o *pathOf) failsOnly(conds ...string) string {
	if o.out != "fail" {
		return ""
	}
	for _, c := range conds {
		if o.is(c) == no {
			return ""
		}
	}
	return "can fail though nothing did"
}

// onlyWhen: what has to be known for a path that does not fail.
func (o *pathOf) onlyWhen(conds ...string) string {
	if o.out == "fail" {
		return ""
	}
	for _, c := range conds {
		if o.is(c) != yes && !(strings.HasSuffix(c, "==nil") && o.out == strings.TrimSuffix(c, "==nil")) {
			return "can succeed without " + c
		}
	}
	return ""
}

func firstOf(xs ...string) string {
	for _, x := range xs {
		if x != "" {
			return x
		}
	}
	return ""
}

// identitiesOnly: a filter that has names and nothing else needs no discovery.
func identitiesOnly(p *Prog, r *Report, rule, fn string, regexes ...string) {
	f := r.anchor(rule, fn)
	if f == nil {
		return
	}
	t := &interp{p: p, terms: true, conds: true, compare: true, counts: true, turns: 3, inline: inPackage(f.Pkg.Pkg.Path()[len("github.com/choria-io/go-choria/"):])}
	r.decides(rule, t, f, paramTerms(f, "", "filter"), "only for names", func(o *pathOf) tri {
		none := func(n string) tri {
			return known(o.is("empty(filter."+n+"Filters())"), o.is("empty(filter."+n+")"))
		}
		list := "filter.IdentityFilters()"
		if o.is("empty(filter.Identity)") != unknown {
			list = "filter.Identity"
		}
		return every(none("Compound"), none("Fact"), none("Class"), o.has(list, 0), o.each(list, func(n string) tri {
			var xs []tri
			for _, re := range regexes {
				xs = append(xs, o.is(re+".MatchString("+n+")").not())
			}
			return every(xs...)
		}))
	})
	for _, re := range regexes {
		want := "^/(.+)/$"
		if re != "stringIsRegex" {
			want = `^pql:\s*(.+)$`
		}
		have := p.globalPattern(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/") + "." + re)
		r.ob(rule, fn+": "+re, have == "" || strings.ReplaceAll(strings.ReplaceAll(have, "(", ""), ")", "") == strings.ReplaceAll(strings.ReplaceAll(want, "(", ""), ")", ""), p.pos(f.Pos()), "is "+have+" and not "+want)
	}
}

func broadcastDiscovery(p *Prog, r *Report) {
	const rule = "broadcast"
	typ := "(*" + discPkg + "broadcast.Broadcast)."
	if f := r.anchor(rule, typ+"Discover"); f != nil {
		t := &interp{p: p, terms: true, conds: true, turns: 2, counts: true, inline: nothing, record: func(n string) bool { return strings.HasSuffix(n, "Request") || strings.HasPrefix(n, "opts[") }}
		for _, n := range []int64{0, 2} {
			filter, coll, to, cl := "NewFilter()", "b.fw.Configuration().MainCollective", "b.timeout", ""
			if n > 0 {
				filter, coll, to, cl = "*&dOpts.filter", "*&dOpts.collective", "*&dOpts.timeout", "*&dOpts.cl"
			}
			r.judge(rule, t, f, lens2(paramTerms(f, "b", "ctx", "opts"), n, "opts"), fmt.Sprintf("asks those the filter is about, with %d options", n), func(o *pathOf) string {
				if n > 0 && !(o.did["opts[0](&dOpts)"] && o.did["opts[1](&dOpts)"]) {
					return "can ignore options"
				}
				if o.is("b.identityOptimize("+filter+")") == yes {
					if o.given != filter+".IdentityFilters()" || o.out != "succeed" {
						return "can give something else than the names asked for"
					}
					return ""
				}
				made := "b.createMessage(" + filter + " " + coll + ")"
				req, client := "", ""
				for d := range o.did {
					if a, b, ok := strings.Cut(d, ".Request("); ok {
						client, req = a, b
					}
				}
				switch {
				case o.out == "fail":
					if req != "" && o.is(client+".Request("+strings.TrimSuffix(req, ")")+")==nil") == no || o.is(made+"#1==nil") == no {
						return ""
					}
					for h := range o.have {
						if strings.HasPrefix(h, "if nil==New(b.fw ") && strings.HasSuffix(h, "#1 false") {
							return ""
						}
					}
					return "can fail though nothing did"
				case req == "":
					return "can give nodes without asking"
				case o.is(made+"#1==nil") != yes:
					return "can use a message that could not be made"
				case !strings.HasPrefix(req, "WithTimeout(ctx ("+to+"+2000000000)) "+made+" b.handler(ctx WithTimeout(ctx ("+to+"+2000000000))#1 &dOpts"):
					return "can ask for something else: " + req
				case client != cl && !strings.HasPrefix(client, "New(b.fw [") || strings.HasPrefix(client, "New(b.fw [") && o.is(client+"#1==nil") != yes:
					return "can use another client: " + client
				case !strings.HasPrefix(client, "New(") && o.is(cl+"==nil") != no:
					return "can use a client that is not set"
				case o.out != "succeed" || o.is(client+".Request("+strings.TrimSuffix(req, ")")+")==nil") != yes:
					return "can succeed when asking failed"
				case !nameIn(noIdentity(o.given), "*&dOpts.discovered", "[]"):
					return "can give " + o.given
				}
				return ""
			})
		}
	}
	identitiesOnly(p, r, rule, typ+"identityOptimize", "stringIsRegex")
	if f := r.anchor(rule, typ+"createMessage"); f != nil {
		t := &interp{p: p, terms: true, conds: true, result: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "Set") }}
		const msg = "b.fw.NewMessage(StdEncoding.EncodeToString(ping) discovery collective request nil)"
		r.perPass(rule, t, f, paramTerms(f, "b", "filter", "collective"), "carries the filter",
			passCase{when: []string{msg + "#1==nil false"}, want: []string{"fail"}},
			passCase{when: []string{msg + "#1==nil true"}, want: []string{msg + ".SetFilter(filter)", msg + ".SetReplyTo(" + msg + ".ReplyTarget())", "give " + msg, "succeed"}})
	}
	if f := r.anchor(rule, typ+"handler"); f != nil {
		n := 0
		for _, h := range f.AnonFuncs {
			if len(h.Params) != 2 {
				continue
			}
			n++
			e := paramTerms(h, "", "m")
			for _, fv := range h.FreeVars {
				e[fv] = mkTerm(fv.Name())
			}
			t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool {
				return strings.HasPrefix(n, "set ") || nameIn(n, "Reset", "Stop", "cancel")
			}}
			const tr = "b.fw.NewTransportFromJSON(m.Data())"
			add := "set " + discPkg + "broadcast.dOpts.discovered=[dopts.discovered " + tr + ".SenderID()]"
			r.perPass(rule, t, h, e, "each reply is a node",
				passCase{when: []string{tr + "#1==nil false"}},
				passCase{when: []string{tr + "#1==nil true", "dopts.dynamicTimeout false"}, want: []string{add}},
				passCase{when: []string{tr + "#1==nil true", "dopts.dynamicTimeout true"}, want: []string{add}, also: func(d string) bool { return strings.Contains(d, "Reset(") }})
		}
		r.need(rule, "handlers of replies", n, 1)
	}
}

func inventoryDiscovery(p *Prog, r *Report) {
	const rule = "inventory"
	typ := "(*" + discPkg + "inventory.Inventory)."
	own := func(g *ssa.Function) bool { return inPackage(discPkg+"inventory")(g) && g.Parent() == nil }
	kinds := []struct{ name, match string }{
		{"Identity", "f.MatchIdentity(NODE.Name)"}, {"Agent", "f.MatchAgents(NODE.Agents)"}, {"Class", "f.MatchClasses(NODE.Classes i.log)"},
		{"Fact", "f.MatchFacts(NODE.Facts i.log)"}, {"Compound", ""},
	}
	if f := r.anchor(rule, typ+"selectMatchingNodes"); f != nil {
		for _, active := range []string{"", "Identity", "Agent", "Class", "Fact", "Compound", "all"} {
			nodes, n := int64(2), int64(2)
			if active == "all" {
				nodes, n = 1, 1
			}
			e := lens2(paramTerms(f, "i", "ctx", "d", "collective", "f"), nodes, "d.Nodes")
			for _, k := range kinds {
				l := int64(0)
				if k.name == active || active == "all" {
					l = n
				}
				lens2(e, l, "f."+k.name+"Filters()", "f."+k.name)
			}
			// one query to a filter
			for i := int64(0); i < n; i++ {
				lens2(e, 1, fmt.Sprintf("f.CompoundFilters()[%d]", i), fmt.Sprintf("f.Compound[%d]", i))
			}
			t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: own}
			what := "nodes that match all filters"
			if active != "" {
				what = "nodes that match " + strings.ToLower(active) + " filters"
			}
			r.judge(rule, t, f, e, what, func(o *pathOf) string {
				if x := o.is("f.Empty()"); x == yes && active != "" || x == no && active == "" {
					return ""
				}
				if o.out == "fail" {
					for h := range o.have {
						if strings.HasSuffix(h, " false") && (strings.Contains(h, "nil==CompileExprQuery(") || strings.Contains(h, "nil==ctx.Err()")) {
							return ""
						}
					}
					return "can fail though nothing did"
				}
				if o.out != "succeed" {
					return "can give " + o.out
				}
				for i := int64(0); i < nodes; i++ {
					node := fmt.Sprintf("d.Nodes[%d]", i)
					xs := []tri{some(o.is("empty(collective)"), o.is("StringInList("+node+".Collectives collective)", "Contains("+node+".Collectives collective)"))}
					for _, k := range kinds {
						switch {
						case k.name != active && active != "all":
						case k.match != "":
							xs = append(xs, o.is(strings.ReplaceAll(k.match, "NODE", node)))
						default:
							for j := int64(0); j < n; j++ {
								var ys []tri
								for _, q := range []string{"f.CompoundFilters()", "f.Compound"} {
									m := fmt.Sprintf("MatchExprProgram(CompileExprQuery(%s[%d][0][expr] nil) %s.Facts %s.Classes %s.Agents nil i.log)", q, j, node, node, node)
									c := fmt.Sprintf("CompileExprQuery(%s[%d][0][expr] nil)", q, j)
									y := o.is(m)
									if o.is(m+"#1==nil") == no {
										y = no
									}
									if y == yes && o.is(c+"#1==nil") != yes {
										y = unknown
									}
									ys = append(ys, y)
								}
								xs = append(xs, known(ys...))
							}
						}
					}
					found := strings.Contains(o.given, node+".Name")
					switch every(xs...) {
					case yes:
						if !found {
							return "can leave out a node that matches"
						}
					case no:
						if found {
							return "can give a node that does not match"
						}
					default:
						return "can decide without looking"
					}
				}
				return ""
			})
		}
	}
	if f := r.anchor(rule, typ+"discover"); f != nil {
		const (
			data = "ReadInventory(dopts.source dopts.noValidate)"
			ids  = "dopts.filter.IdentityFilters()"
			grp  = "i.isValidGroupLookup(dopts.filter)"
		)
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing}
		r.judge(rule, t, f, lens2(paramTerms(f, "i", "ctx", "dopts"), 2, ids, "dopts.filter.Identity"), "groups and filters", func(o *pathOf) string {
			var conds, wants, looks []string
			for i := 0; i < 2; i++ {
				g := fmt.Sprintf(data+".LookupGroup(TrimPrefix("+ids+"[%d] group:))", i)
				conds = append(conds, g+"#1", g+".Filter.ToProtocolFilter()#1==nil")
				for _, c := range []string{"", "dopts.collective"} {
					sel := "i.selectMatchingNodes(ctx " + data + " " + c + " " + g + ".Filter.ToProtocolFilter())"
					looks = append(looks, sel+"#1==nil")
				}
				wants = append(wants, g)
			}
			if o.out == "fail" {
				return o.failsOnly(append(append([]string{data + "#1==nil", grp + "#1==nil"}, conds...), looks...)...)
			}
			if w := o.onlyWhen(data+"#1==nil", grp+"#1==nil"); w != "" {
				return w
			}
			sel := "i.selectMatchingNodes(ctx " + data + " dopts.collective dopts.filter)"
			switch o.is(grp) {
			case no:
				if o.given != sel || o.out != sel+"#1" && o.is(sel+"#1==nil") != yes {
					return "can give something else than what matches the filter"
				}
			case yes:
				if w := o.onlyWhen(conds...); w != "" {
					return w
				}
				for _, g := range wants {
					if !strings.Contains(o.given, " "+g+".Filter.ToProtocolFilter())") {
						return "can leave out a group"
					}
				}
			default:
				return "can decide without looking for groups"
			}
			return ""
		})
	}
	if f := r.anchor(rule, typ+"isValidGroupLookup"); f != nil {
		for _, extra := range []string{"", "Fact", "Class", "Agent", "Agent2", "Compound"} {
			e := lens2(paramTerms(f, "i", "f"), 2, "f.IdentityFilters()", "f.Identity")
			for _, k := range []string{"Fact", "Class", "Agent", "Compound"} {
				n := int64(0)
				if k == extra {
					n = 1
				} else if k+"2" == extra {
					n = 2
				}
				lens2(e, n, "f."+k+"Filters()", "f."+k)
			}
			t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing}
			what := "groups alone"
			if extra != "" {
				what = "groups with " + extra
			}
			r.judge(rule, t, f, e, what, func(o *pathOf) string {
				ids := "f.IdentityFilters()"
				if o.is("HasPrefix(f.Identity[0] group:)") != unknown {
					ids = "f.Identity"
				}
				a, b := o.is("HasPrefix("+ids+"[0] group:)"), o.is("HasPrefix("+ids+"[1] group:)")
				switch some(a, b) {
				case unknown:
					return "can decide without looking at all names"
				case no:
					if o.given != "false" || o.out != "succeed" {
						return "can take names for groups"
					}
				case yes:
					bad := every(a, b) == no || nameIn(extra, "Fact", "Class", "Compound", "Agent2")
					if bad != (o.out == "fail") || !bad && o.given != "true" {
						return "can combine groups with filters that do not apply to them, or not accept groups"
					}
				}
				return ""
			})
		}
	}
	if f := r.anchor(rule, "(*"+discPkg+"inventory.GroupFilter).ToProtocolFilter"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "Add") }}
		e := lens2(paramTerms(f, "f"), 2, "f.Facts", "f.Agents", "f.Identities", "f.Classes")
		r.judge(rule, t, f, e, "all filters of a group", func(o *pathOf) string {
			if o.is("f==nil") == yes {
				return ""
			}
			if o.out == "fail" {
				for h := range o.have {
					if strings.HasPrefix(h, "if nil==") && strings.HasSuffix(h, " false") && !strings.HasPrefix(h, "if nil==f ") {
						return ""
					}
				}
				return "can fail though nothing did"
			}
			for i := 0; i < 2; i++ {
				at := func(l string) string { return fmt.Sprintf("f.%s[%d]", l, i) }
				fact := "ParseFactFilterString(" + at("Facts") + ")"
				if o.is(fact+"#1==nil") != yes {
					return "can use a fact that could not be parsed"
				}
				for _, d := range []string{"AddFactFilter(" + fact + "[0] " + fact + "[1] " + fact + "[2])", "AddAgentFilter(" + at("Agents") + ")", "AddIdentityFilter(" + at("Identities") + ")", "AddClassFilter(" + at("Classes") + ")"} {
					if !o.did["NewFilter()."+d] {
						return "can leave out " + d
					}
				}
			}
			if c := o.did["NewFilter().AddCompoundFilter(f.Compound)"]; c != (o.is("empty(f.Compound)") == no) {
				return "can leave out the query"
			}
			if o.given != "NewFilter()" {
				return "can give " + o.given
			}
			return ""
		})
	}
	if f := r.anchor(rule, discPkg+"inventory.ReadInventory"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing}
		const file = "ReadFile(path)"
		r.judge(rule, t, f, paramTerms(f, "path", "noValidate"), "only valid files are used", func(o *pathOf) string {
			if o.out == "fail" {
				return ""
			}
			if w := o.onlyWhen(file + "#1==nil"); w != "" {
				return w
			}
			json := file
			if some(o.is("Ext(path)==.yaml"), o.is("Ext(path)==.yml")) == yes {
				json = "YAMLToJSON(" + file + ")"
				if w := o.onlyWhen(json + "#1==nil"); w != "" {
					return w
				}
			}
			if w := o.onlyWhen("Unmarshal("+json+" &DataFile)==nil", "*&DataFile.Schema==https://choria.io/schemas/choria/discovery/v1/inventory_file.json"); w != "" {
				return w
			}
			if o.is("noValidate") != yes {
				if w := o.onlyWhen("ValidateInventory("+json+")#1==nil", "empty(ValidateInventory("+json+"))"); w != "" {
					return w
				}
			}
			if noIdentity(o.given) != "&DataFile" {
				return "can give " + o.given
			}
			return ""
		})
	}
	if f := r.anchor(rule, "(*"+discPkg+"inventory.DataFile).LookupGroup"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing}
		r.judge(rule, t, f, lens2(paramTerms(f, "d", "name"), 2, "d.Groups"), "groups by name", func(o *pathOf) string {
			some := some(o.is("d.Groups[0].Name==name"), o.is("d.Groups[1].Name==name"))
			if len(o.vals) == 2 && showTerm(o.vals[1]) != map[tri]string{yes: "true", no: "false"}[some] {
				return "can say otherwise"
			}
			return ""
		})
	}
	if f := r.anchor(rule, typ+"Discover"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, counts: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
		set := "set " + discPkg + "inventory.dOpts."
		r.judge(rule, t, f, lens2(paramTerms(f, "i", "ctx", "opts"), 1, "opts"), "the file asked for", func(o *pathOf) string {
			if o.out == "fail" {
				return ""
			}
			src := "*&dOpts.source"
			if o.is("has(*&dOpts.do[file])") == yes {
				src = "*&dOpts.do[file]"
			}
			if v := o.is("has(*&dOpts.do[novalidate])"); v == yes != o.did[set+"noValidate=true"] {
				return "can validate otherwise than asked"
			}
			if w := o.onlyWhen("ExpandPath("+src+")#1==nil", "FileExist(ExpandPath("+src+"))"); w != "" {
				return w
			}
			if !o.did[set+"source=ExpandPath("+src+")"] || !strings.HasPrefix(o.given, "i.discover(ctx &dOpts") || !strings.HasPrefix(o.out, "i.discover(ctx &dOpts") && o.out != "succeed" {
				return "can read something else than what was asked for"
			}
			return ""
		})
	}
}

func flatfileDiscovery(p *Prog, r *Report) {
	const rule = "flatfile"
	typ := "(*" + discPkg + "flatfile.FlatFile)."
	formats := map[string]string{}
	for _, n := range []string{"Text", "JSON", "YAML", "ChoriaResponses"} {
		formats[showTerm(p.pkgConst(discPkg+"flatfile", n+"Format"))] = n
	}
	if f := r.anchor(rule, typ+"Discover"); f != nil {
		const ids = "*&dOpts.filter.Identity"
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing}
		r.judge(rule, t, f, lens2(paramTerms(f, "f", "ctx", "opts"), 1, "opts"), "what is in the file", func(o *pathOf) string {
			const filter = "*&dOpts.filter"
			has := o.is(filter + "==nil").not()
			var other []tri
			for _, k := range []string{"Agent", "Compound", "Class", "Fact"} {
				other = append(other, o.is("empty("+filter+"."+k+")").not())
			}
			if o.out == "fail" {
				if every(has, some(other...)) == yes {
					return ""
				}
				for h := range o.have {
					if strings.HasPrefix(h, "if nil==") && strings.HasSuffix(h, "#1 false") || strings.HasPrefix(h, "if nil==f.validateNodes(") && strings.HasSuffix(h, " false") ||
						strings.HasPrefix(h, "if empty(*&dOpts.") && strings.HasSuffix(h, " true") {
						return ""
					}
					if strings.Contains(h, "*&dOpts.format") && strings.HasSuffix(h, " false") {
						return ""
					}
				}
				return "can fail though nothing did"
			}
			if has == unknown || has == yes && some(other...) != no {
				return "can ignore filters"
			}
			reader := "*&dOpts.reader"
			switch {
			case o.is("has(*&dOpts.do[file])") == yes:
				reader = "Open(*&dOpts.do[file])"
			case o.is(reader+"==nil") == yes:
				reader = "Open(*&dOpts.source)"
			}
			kind := ""
			form := "*&dOpts.do[format]"
			is := func(names ...string) bool {
				for _, n := range names {
					if o.is(form+"=="+n) == yes {
						return true
					}
				}
				return false
			}
			switch {
			case o.is("has("+form+")") == yes && is("json"):
				kind = "JSON"
			case o.is("has("+form+")") == yes && is("yaml", "yml"):
				kind = "YAML"
			case o.is("has("+form+")") == yes && is("choriarpc", "results", "rpc", "response"):
				kind = "ChoriaResponses"
			case o.is("has("+form+")") == yes:
				kind = "Text"
			default:
				for c, n := range formats {
					if o.is("*&dOpts.format=="+c) == yes {
						kind = n
					}
				}
				if o.is("*&dOpts.format==0") == yes {
					kind = "Text"
				}
			}
			var nodes string
			switch kind {
			case "Text":
				nodes = "f.textDiscover(" + reader + ")"
			case "JSON":
				nodes = "f.jsonDiscover(" + reader + " *&dOpts.do)"
			case "YAML":
				nodes = "f.yamlDiscover(" + reader + " *&dOpts.do)"
			case "ChoriaResponses":
				nodes = "f.choriaDiscover(" + reader + ")"
			default:
				return "can read a file in an unknown format"
			}
			if w := o.onlyWhen(nodes+"#1==nil", "f.validateNodes("+nodes+")==nil"); w != "" {
				return w
			}
			want := nodes
			if has == yes && o.has(ids, 0) != no {
				one, two := "FilterNodes("+nodes+" "+ids+"[0])", "FilterNodes("+nodes+" "+ids+"[1])"
				switch o.has(ids, 1) {
				case no:
					want = one
				case yes:
					want = "[" + one + " " + two + "]"
				default:
					return "can decide without looking at all names"
				}
			}
			if o.given != want || o.out != "succeed" {
				return "can give " + o.given
			}
			return ""
		})
	}
	reads := func(n string, e func(f *ssa.Function) ienv, wrong func(o *pathOf) string) {
		if f := r.anchor(rule, typ+n); f != nil {
			t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing}
			r.judge(rule, t, f, e(f), "reads what is there", wrong)
		}
	}
	reads("validateNodes", func(f *ssa.Function) ienv { return paramTerms(f, "f", "nodes") }, func(o *pathOf) string {
		valid := o.each("nodes", func(n string) tri { return o.is("validIdentityRe.MatchString(" + n + ")") })
		if (valid == yes) != (o.out == "succeed") || valid == unknown {
			return "can accept what is not a name, or not accept names"
		}
		return ""
	})
	reads("choriaDiscover", func(f *ssa.Function) ienv { return paramTerms(f, "f", "in") }, func(o *pathOf) string {
		if o.out == "fail" {
			return ""
		}
		const in = "TrimSpace(ReadAll(in))"
		for i := 0; o.has("*&RPCResults.Replies", i) == yes; i++ {
			if !strings.Contains(noIdentity(o.given), fmt.Sprintf("*&RPCResults.Replies[%d].Sender", i)) {
				return "can leave out a sender"
			}
		}
		return o.onlyWhen("ReadAll(in)#1==nil", "Unmarshal("+in+" &RPCResults)==nil")
	})
	reads("yamlDiscover", func(f *ssa.Function) ienv { return paramTerms(f, "f", "in", "do") }, func(o *pathOf) string {
		if o.out == "fail" {
			return o.failsOnly("ReadAll(in)#1==nil", "YAMLToJSON(ReadAll(in))#1==nil")
		}
		if o.given != "f.jsonDiscover(NewReader(YAMLToJSON(ReadAll(in))) do)" || o.out != o.given+"#1" && o.out != "succeed" {
			return "can give " + o.given
		}
		return o.onlyWhen("ReadAll(in)#1==nil", "YAMLToJSON(ReadAll(in))#1==nil")
	})
	reads("jsonDiscover", func(f *ssa.Function) ienv { return paramTerms(f, "f", "in", "do") }, func(o *pathOf) string {
		if o.out == "fail" {
			return ""
		}
		conds := []string{"ReadAll(in)#1==nil"}
		if o.is("has(do[filter])") == yes {
			if o.is("empty(do[filter])", "empty(?[filter])") != no {
				return "can use an empty query"
			}
			found := false
			for h := range o.have {
				found = found || strings.HasPrefix(h, "if GetBytes(ReadAll(in) ") && strings.HasSuffix(h, ".IsArray() true")
			}
			if !found {
				return "can give what is not a list"
			}
		} else {
			conds = append(conds, "Unmarshal(ReadAll(in) [])==nil")
		}
		return o.onlyWhen(conds...)
	})
	if f := p.fn(typ + "jsonDiscover"); f != nil {
		n := 0
		for _, h := range f.AnonFuncs {
			if len(h.Params) != 2 {
				continue
			}
			n++
			t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return n == "append" }}
			t.compare = true
			r.judge(rule, t, h, paramTerms(h, "", "v"), "each that is a string", func(o *pathOf) string {
				is := every(o.is("v.Exists()"), o.is("v.Type==3"))
				if add := o.did["append(v.String())"]; add != (is == yes) || o.given != "true" {
					return "can leave out or add a node, or stop"
				}
				return ""
			})
		}
		r.need(rule, "functions that look at found nodes", n, 1)
	}
	if f := r.anchor(rule, typ+"textDiscover"); f != nil {
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: nothing, record: func(n string) bool { return n == "append" }}
		r.perPass(rule, t, f, paramTerms(f, "f", "in"), "each line", passCase{want: []string{"append(TrimSpace(NewScanner(in).Text()))"}})
		t = &interp{p: p, terms: true, conds: true, inline: nothing}
		r.judge(rule, t, f, paramTerms(f, "f", "in"), "all lines", func(o *pathOf) string {
			if o.out == "fail" {
				return o.failsOnly("NewScanner(in).Err()==nil")
			}
			return o.onlyWhen("NewScanner(in).Err()==nil")
		})
	}
}

func externalDiscovery(p *Prog, r *Report) {
	const rule = "external"
	f := r.anchor(rule, "(*"+discPkg+"external.External).Discover")
	if f == nil {
		return
	}
	req := p.pkgConst(discPkg+"external", "RequestProtocol")
	rep := p.pkgConst(discPkg+"external", "ResponseProtocol")
	set := "set " + discPkg + "external.Request."
	t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, counts: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, set) || n == "Write" }}
	r.judge(rule, t, f, lens2(paramTerms(f, "e", "ctx", "opts"), 1, "opts"), "asks and tells what is asked for", func(o *pathOf) string {
		if o.out == "fail" {
			return ""
		}
		filter, do := "*&dOpts.filter", "*&dOpts.do"
		if o.is(filter+"==nil") == yes {
			filter = "NewFilter()"
		}
		want := []string{"Collective=*&dOpts.collective", "Federations=*&dOpts.federations", "Filter=" + filter, "Protocol=" + showTerm(req)}
		for _, w := range want {
			if !o.did[set+w] {
				return "can ask without " + w
			}
		}
		if d := o.doing(set + "Options="); !nameIn(strings.TrimPrefix(d, set+"Options="), do, "Clone("+do+")") {
			return "can ask without the options: " + d
		}
		wrote := false
		for d := range o.did {
			wrote = wrote || strings.HasPrefix(d, "CreateTemp( request).Write(Marshal(&Request")
		}
		if !wrote {
			return "can ask without writing the request"
		}
		file := "ReadFile(CreateTemp( reply).Name())"
		if w := o.onlyWhen(file+"#1==nil", "Unmarshal("+file+" &Response)==nil", "empty(*&Response.Error)", "*&Response.Protocol=="+showTerm(rep)); w != "" {
			return w
		}
		ran := false
		for h := range o.have {
			ran = ran || strings.Contains(h, "ExitCode()==0 true") || strings.Contains(h, "0==") && strings.HasSuffix(h, "ExitCode() true")
		}
		if !ran {
			return "can believe a command that failed"
		}
		if o.out != "succeed" || noIdentity(o.given) != "*&Response.Nodes" {
			return "can give " + o.given
		}
		return ""
	})
}

func puppetDiscovery(p *Prog, r *Report) {
	const rule = "puppetdb"
	typ := "(*" + discPkg + "puppetdb.PuppetDB)."
	on := func(n string, names []string, lens map[string]int64, what string, wrong func(o *pathOf) string) {
		if f := r.anchor(rule, typ+n); f != nil {
			t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing}
			e := paramTerms(f, names...)
			for l, n := range lens {
				lens2(e, n, l)
			}
			r.judge(rule, t, f, e, what, wrong)
		}
	}
	identitiesOnly(p, r, rule, typ+"identityOptimize", "stringIsRegex", "stringIsPQL")
	on("Discover", []string{"p", "ctx", "opts"}, map[string]int64{"opts": 1}, "asks for what the filter is about", func(o *pathOf) string {
		const (
			filter = "*&dOpts.filter"
			search = "p.searchString(*&dOpts.collective " + filter + ")"
			pql    = "p.fw.PQLQueryCertNames(" + search + ")"
		)
		if o.out == "fail" {
			return o.failsOnly("empty("+filter+".Compound)", search+"#1==nil", pql+"#1==nil")
		}
		if w := o.onlyWhen("empty(" + filter + ".Compound)"); w != "" {
			return w
		}
		if o.is("p.identityOptimize("+filter+")") == yes {
			if o.given != filter+".IdentityFilters()" {
				return "can give something else than the names"
			}
			return ""
		}
		if o.given != pql || o.out != pql+"#1" && o.out != "succeed" {
			return "can give " + o.given
		}
		return o.onlyWhen(search + "#1==nil")
	})
	on("searchString", []string{"p", "c", "f"}, nil, "all parts apply", func(o *pathOf) string {
		if o.out == "fail" {
			return o.failsOnly("p.discoverFacts(f.Fact)#1==nil")
		}
		list, ok := strings.CutPrefix(o.given, "nodes[certname; deactivated] { Join([")
		list, ok2 := strings.CutSuffix(list, "]  and ) }")
		if o.given == "nodes[certname; deactivated] { Join(nil  and ) }" || o.given == "nodes[certname; deactivated] { Join([]  and ) }" {
			list, ok, ok2 = "", true, true
		}
		if !ok || !ok2 || o.out != "succeed" {
			return "can ask for " + o.given
		}
		for _, q := range []string{"p.discoverCollective(c)", "p.discoverNodes(f.Identity)", "p.discoverClasses(f.Class)", "p.discoverAgents(f.Agent)", "p.discoverFacts(f.Fact)"} {
			is := strings.Contains(" "+list+" ", " ("+q+") ")
			if e := o.is("empty(" + q + ")"); e == unknown || is != (e == no) {
				return "can leave out " + q
			}
		}
		return o.onlyWhen("p.discoverFacts(f.Fact)#1==nil")
	})
	// each is one part, joined
	joined := func(o *pathOf, list, with string, part func(x string) string) string {
		if o.has(list, 0) == no {
			if o.given != "" {
				return "can ask for something when nothing is asked for"
			}
			return ""
		}
		want := []string{}
		for i := 0; i < 2; i++ {
			want = append(want, part(fmt.Sprintf("%s[%d]", list, i)))
		}
		if w := "Join([" + strings.Join(want, " ") + "]  " + with + " )"; o.given != w {
			return "can ask for " + o.given + " and not " + w
		}
		return ""
	}
	re := func(o *pathOf, x string) bool { return o.is("stringIsRegex.MatchString("+x+")") == yes }
	sub := func(x string) string { return "p.stringRegex(stringIsRegex.FindStringSubmatch(" + x + ")[1])" }
	on("discoverNodes", []string{"p", "n"}, map[string]int64{"n": 2}, "any of the names", func(o *pathOf) string {
		return joined(o, "n", "or", func(x string) string {
			switch {
			case o.is("stringIsPQL.MatchString("+x+")") == yes:
				return "certname in stringIsPQL.FindStringSubmatch(" + x + ")[1]"
			case re(o, x):
				return `certname ~ "` + sub(x) + `"`
			}
			return `certname = "` + x + `"`
		})
	})
	for _, n := range []string{"Nodes", "Classes", "Agents"} {
		on("discover"+n, []string{"p", "n"}, map[string]int64{"n": 1}, "one is enough", func(o *pathOf) string {
			if o.given == "" || strings.HasPrefix(o.given, "Join([]") {
				return "can leave it out"
			}
			return ""
		})
	}
	on("discoverClasses", []string{"p", "n"}, map[string]int64{"n": 2}, "all of the classes", func(o *pathOf) string {
		return joined(o, "n", "and", func(x string) string {
			if re(o, x) {
				return `resources {type = "Class" and title ~ "` + sub(x) + `"}`
			}
			return `resources {type = "Class" and title = "p.capitalizePuppetResource(` + x + `)"}`
		})
	})
	on("discoverAgents", []string{"p", "n"}, map[string]int64{"n": 2}, "all of the agents", func(o *pathOf) string {
		return joined(o, "n", "and", func(x string) string {
			switch {
			case some(o.is(x+"==scout"), o.is(x+"==rpcutil"), o.is(x+"==choria_util")) == yes:
				return "(p.discoverClasses([choria::service]) or p.discoverClasses([mcollective::service]))"
			case re(o, x):
				return `resources {type = "File" and tag ~ "mcollective_agent_.*?` + sub(x) + `.*?_server"}`
			}
			return `resources {type = "File" and tag = "mcollective_agent_` + x + `_server"}`
		})
	})
	on("discoverCollective", []string{"p", "c"}, nil, "the collective", func(o *pathOf) string {
		if o.is("empty(c)") == no && o.given == `certname in inventory[certname] { facts.mcollective.server.collectives.match("\d+") = "c" }` || o.is("empty(c)") == yes && o.given == "" {
			return ""
		}
		return "can ask for " + o.given
	})
	on("discoverFacts", []string{"p", "n"}, map[string]int64{"n": 2}, "all of the facts", func(o *pathOf) string {
		ops := []string{"=~", "==", "!=", ">=", "<=", ">", "<"}
		kind := func(x string) string {
			for _, op := range ops {
				if o.is(x+".Operator=="+op) == yes {
					return op
				}
			}
			return ""
		}
		if o.out == "fail" {
			for i := 0; i < 2; i++ {
				x := fmt.Sprintf("n[%d]", i)
				switch kind(x) {
				case "":
					return ""
				case ">=", "<=", ">", "<":
					if o.is("p.isNumeric("+x+".Value)") == no {
						return ""
					}
				}
			}
			return "can fail for facts that are good"
		}
		bad := ""
		w := joined(o, "n", "and", func(x string) string {
			fa, v := x+".Fact", x+".Value"
			num := some(o.is(v+"==true"), o.is(v+"==false"), o.is("p.isNumeric("+v+")")) == yes
			switch op := kind(x); op {
			case "=~":
				return `inventory {facts.` + fa + ` ~ "p.stringRegex(` + v + `)"}`
			case "==", "!=":
				q := "facts." + fa + ` = "` + v + `"`
				if num {
					q = "facts." + fa + " = " + v + " or " + q
				}
				if op == "!=" {
					q = "!(" + q + ")"
				}
				return "inventory {" + q + "}"
			case "":
				bad = "can ask with an operator that is not known"
			default:
				if o.is("p.isNumeric("+v+")") != yes {
					bad = "can compare what is not a number"
				}
				return "inventory {facts." + fa + " " + x + ".Operator " + v + "}"
			}
			return "?"
		})
		return firstOf(bad, w)
	})
}

func chosenDiscovery(p *Prog, r *Report) {
	const rule = "chosen"
	typ := "(*client/discovery.StandardOptions)."
	if f := r.anchor(rule, typ+"NewFilter"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: nothing}
		r.judge(rule, t, f, paramTerms(f, "o", "agent"), "all filters that were given", func(o *pathOf) string {
			in, ok := strings.CutPrefix(o.given, "NewFilter(")
			if !ok || o.out != o.given+"#1" && o.out != "succeed" {
				return "can give " + o.given
			}
			for _, w := range []string{"FactFilter(o.FactFilter)", "AgentFilter(o.AgentFilter)", "ClassFilter(o.ClassFilter)", "IdentityFilter(o.IdentityFilter)", "CombinedFilter(o.CombinedFilter)", "AgentFilter(agent)"} {
				if !strings.Contains(in, w) {
					return "can leave out " + w
				}
			}
			if !strings.Contains(in, "CompoundFilter(o.CompoundFilter)") && !strings.Contains(in, "CompoundFilter([o.CompoundFilter])") {
				return "can leave out the query"
			}
			return ""
		})
	}
	if f := r.anchor(rule, typ+"Merge"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: inPackage("client/discovery"), record: func(n string) bool { return strings.HasPrefix(n, "set ") || n == "put" }}
		set := "set client/discovery.StandardOptions."
		r.judge(rule, t, f, paramTerms(f, "o", "a"), "filters are added and settings taken over", func(o *pathOf) string {
			for _, l := range []string{"Fact", "Agent", "Class", "Identity", "Combined"} {
				if !o.did[set+l+"Filter=[o."+l+"Filter a."+l+"Filter]"] && o.is("empty(a."+l+"Filter)") != yes {
					return "can leave out " + l
				}
			}
			for _, k := range []string{"Collective", "CompoundFilter", "DiscoveryMethod", "NodesFile"} {
				if o.did[set+k+"=a."+k] != (o.is("empty(a."+k+")") == no) {
					return "can leave out or remove " + k
				}
			}
			if o.did[set+"DiscoveryTimeout=a.DiscoveryTimeout"] != (some(o.is("0<a.DiscoveryTimeout"), o.is("a.DiscoveryTimeout<1").not(), o.is("a.DiscoveryTimeout==0").not()) == yes) {
				return "can leave out or remove the timeout"
			}
			if d := o.doing(set + "DynamicDiscoveryTimeout"); d == "" && o.is("a.DynamicDiscoveryTimeout") != no {
				return "can leave out the dynamic timeout"
			}
			return ""
		})
		t = &interp{p: p, terms: true, ends: backEdge, inline: nothing, record: func(n string) bool { return n == "put" }}
		r.perPass(rule, t, f, paramTerms(f, "o", "a"), "options are taken over", passCase{want: []string{"put(o.DiscoveryOptions a.DiscoveryOptions[key] a.DiscoveryOptions[])"}})
	}
	if f := r.anchor(rule, typ+"SetDefaultsFromConfig"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
		set := "set client/discovery.StandardOptions."
		r.judge(rule, t, f, paramTerms(f, "o", "cfg"), "only what was not set", func(o *pathOf) string {
			for _, k := range [][2]string{{"DiscoveryMethod=cfg.DefaultDiscoveryMethod", "empty(o.DiscoveryMethod)"}, {"unsetMethod=true", "empty(o.DiscoveryMethod)"},
				{"Collective=cfg.MainCollective", "empty(o.Collective)"}, {"DiscoveryTimeout=cfg.DiscoveryTimeout", "o.DiscoveryTimeout==0"}} {
				if o.did[set+k[0]] != (o.is(k[1]) == yes) {
					return "can set otherwise " + k[0]
				}
			}
			return ""
		})
	}
	f := r.anchor(rule, typ+"Discover")
	if f == nil {
		return
	}
	for _, m := range []struct{ dm, pkg string }{{"mc", "broadcast"}, {"broadcast", "broadcast"}, {"choria", "puppetdb"}, {"puppetdb", "puppetdb"}, {"external", "external"}, {"flatfile", "flatfile"}, {"file", "flatfile"}, {"inventory", "inventory"}, {"other", ""}} {
		e := paramTerms(f, "o", "ctx", "fw", "agent", "stdin", "progress", "log")
		e[cellOf("o.DiscoveryMethod")] = constant.MakeString(m.dm)
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing, name: func(c ssa.CallInstruction) string {
			if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), discPkg) {
				return g.Pkg.Pkg.Name() + "." + g.Name()
			}
			return ""
		}}
		r.judge(rule, t, f, e, "discovers with "+m.dm, func(o *pathOf) string {
			const filter = "o.NewFilter(agent)"
			if o.out == "fail" || o.is("Open(o.NodesFile)==nil") == yes {
				return ""
			}
			if w := o.onlyWhen(filter + "#1==nil"); w != "" {
				return w
			}
			want := m.pkg
			switch {
			case o.is("empty(o.NodesFile)") == no:
				want = "flatfile"
			case o.is("empty("+filter+".Compound)") == no && !nameIn(m.dm, "mc", "broadcast", "inventory"):
				want = "broadcast"
			case strings.Contains(o.given, "flatfile.") && o.is("o.isPiped()") == yes && o.is("stdin") == yes:
				want = "flatfile"
			}
			with := []string{want + ".Filter(" + filter + ")", want + ".Collective(o.Collective)"}
			to := want + ".Timeout((1000000000*o.DiscoveryTimeout))"
			opt := want + ".DiscoveryOptions(o.DiscoveryOptions)"
			switch want {
			case "broadcast", "puppetdb":
				with = append(with, to)
			case "external":
				with = append(with, to, opt)
			case "inventory":
				with = append(with, opt)
			case "flatfile":
				with = []string{opt, "flatfile.Reader(", "flatfile.Format("}
				if o.is("empty(o.NodesFile)") == no {
					with[1] = "flatfile.Reader(Open(o.NodesFile))"
					kind := map[bool]string{true: "Text"}[true]
					ext := "Ext(o.NodesFile)"
					if o.is(ext+"==.json") == yes {
						kind = "JSON"
					} else if some(o.is(ext+"==.yaml"), o.is(ext+"==.yml")) == yes {
						kind = "YAML"
					}
					with[2] = "flatfile.Format(" + showTerm(p.pkgConst(discPkg+"flatfile", kind+"Format")) + ")"
				}
			}
			if want == "" || !strings.HasPrefix(o.given, want+".New(fw)."+want+".Discover(ctx ") && !strings.HasPrefix(o.given, want+".New(fw).Discover(ctx ") {
				return "can use " + o.given
			}
			for _, w := range with {
				if !strings.Contains(o.given, w) {
					return "can leave out " + w + " in " + o.given
				}
			}
			if want == "broadcast" && strings.Contains(o.given, "SlidingWindow()") != (o.is("o.DynamicDiscoveryTimeout") == yes) {
				return "can use the wrong timeout"
			}
			if o.out != o.given+"#1" && (o.out != "succeed" || o.is(o.given+"#1==nil") != yes) {
				return "can lose errors"
			}
			return ""
		})
	}
}

// madeFilters: what was asked for in words is what a filter holds, and what is set by options is what is used.
func madeFilters(p *Prog, r *Report) {
	const rule = "made"
	inner := func(f *ssa.Function) (*ssa.Function, ienv) {
		if f == nil || len(f.AnonFuncs) != 1 || len(f.AnonFuncs[0].Params) != 1 {
			return nil, nil
		}
		g := f.AnonFuncs[0]
		e := paramTerms(g, "pf")
		for _, fv := range g.FreeVars {
			e[fv] = mkTerm("given")
		}
		return g, e
	}
	for _, n := range []string{"Agent", "Class", "Identity", "Compound", "Fact", "Combined"} {
		f := r.anchor(rule, "filter."+n+"Filter")
		g, e := inner(f)
		if g == nil {
			continue
		}
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 2, counts: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "Add") }}
		if n == "Combined" {
			e = lens2(e, 1, "given", "*given")
		}
		r.judge(rule, t, g, e, "adds each", func(o *pathOf) string {
			list := "given"
			for h := range o.have {
				if strings.Contains(h, "*given") {
					list = "*given"
				}
			}
			parts := list
			if n == "Combined" {
				parts = "Split(" + list + "[0]  )"
			}
			for i := 0; i < 2; i++ {
				x := fmt.Sprintf("%s[%d]", parts, i)
				have := o.has(parts, i)
				if have == no {
					break
				}
				parsed := "ParseFactFilterString(" + x + ")"
				fact := "pf.AddFactFilter(" + parsed + ".Fact " + parsed + ".Operator " + parsed + ".Value)"
				if o.out == "fail" {
					if n == "Fact" && (o.is(parsed+"#1==nil") == no || o.is(fact+"==nil") == no) {
						return ""
					}
					continue
				}
				if have == unknown {
					return "can leave out filters"
				}
				e := o.is("empty("+x+")", x+"==")
				add := "pf.Add" + n + "Filter(" + x + ")"
				switch {
				case n == "Fact", n == "Combined" && o.is(parsed+"#1==nil") == yes:
					add = fact
				case n == "Combined":
					add = "pf.AddClassFilter(" + x + ")"
				}
				if e == unknown || o.did[add] != (e == no) {
					return "can leave out " + add
				}
				if n == "Fact" && e == no && (o.is(parsed+"#1==nil") != yes || o.is(fact+"==nil") != yes) {
					return "can use what is not a fact"
				}
			}
			if o.out == "fail" {
				return "can fail though nothing did"
			}
			return ""
		})
	}
	if f := r.anchor(rule, "filter.NewFilter"); f != nil {
		t := &interp{p: p, terms: true, conds: true, turns: 2, counts: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "fs[") }}
		r.judge(rule, t, f, lens2(paramTerms(f, "fs"), 2, "fs"), "all are added", func(o *pathOf) string {
			const a, b = "fs[0](NewFilter())", "fs[1](NewFilter())"
			switch {
			case o.out == "fail":
				return o.failsOnly(a+"==nil", b+"==nil")
			case !o.did[a] || !o.did[b] || o.is(a+"==nil") != yes || o.out != b && o.is(b+"==nil") != yes:
				return "can leave out filters"
			case o.given != "NewFilter()":
				return "can give " + o.given
			}
			return ""
		})
	}
	typ := "(*protocol.Filter)."
	for _, n := range []string{"Agent", "Class", "Identity", "Compound", "Fact"} {
		if f := r.anchor(rule, typ+"Add"+n+"Filter"); f != nil {
			t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") || n == "put" }}
			what := "set protocol.Filter." + n + "="
			r.judge(rule, t, f, paramTerms(f, "f", "x", "op", "val"), "keeps it", func(o *pathOf) string {
				d := strings.TrimPrefix(o.doing(what), what)
				if n == "Fact" {
					bad := o.out == "fail"
					const made = "set protocol.FactFilter."
					if bad != (d == "") || !bad && (!strings.HasPrefix(d, "[f.Fact ") || !o.did[made+"Fact=x"] || !o.did[made+"Operator=op"] || !o.did[made+"Value=val"]) {
						return "can keep " + d
					}
					return ""
				}
				skip := o.is("empty(x)") == yes || o.is("f.contains(x f."+n+")", "StringInList(f."+n+" x)", "Contains(f."+n+" x)") == yes
				if o.out == "fail" || skip != (d == "") || !skip && n != "Compound" && d != "[f."+n+" x]" || n == "Compound" && !skip && (!strings.HasPrefix(d, "[f.Compound ") || o.doing("put(") == "" || !strings.HasSuffix(o.doing("put("), " expr x)")) {
					return "can keep " + d
				}
				return ""
			})
		}
	}
	// options
	for _, d := range []string{"broadcast", "external", "flatfile", "inventory", "puppetdb"} {
		pkg := discPkg + d
		for _, n := range [][2]string{{"Filter", "filter"}, {"Collective", "collective"}, {"Timeout", "timeout"}, {"Federations", "federations"}, {"Command", "command"}, {"DiscoveryOptions", "do"}, {"Format", "format"}, {"File", "source"}, {"Reader", "reader"}} {
			g, e := inner(p.fn(pkg + "." + n[0]))
			if g == nil {
				continue
			}
			t := &interp{p: p, terms: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
			set := "set " + pkg + ".dOpts." + n[1] + "="
			r.perPass(rule, t, g, e, "sets it", passCase{want: []string{set + "given"}})
		}
	}
}
