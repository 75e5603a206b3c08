package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Generated clients: what is asked for is sent to those it is for, and what
// they say is given to the caller.

func init() {
	register(&Check{ID: "R01", Level: "other",
		Rule:        "each generated client sends its action with the inputs given, under the names the DDL has for them, to the targets that were set or else the nodes that its discovery gives for all its filters, with all request options that were set; every reply that is not filtered is in the result with its sender, status, time, defaults and data; outputs are read under the names and types in the DDL without panics",
		Explanation: "In each client package every path through making a request, the node sources, parsing of filters, options, handlers of replies and accessors is explored with values named by where they come from, for lists of up to two elements, and compared with what the conditions on it call for; the names and types of inputs and outputs come from the ddl.json beside the code.",
		Run:         generatedClients})
}

type clientDDL struct {
	Metadata struct{ Name string }
	Actions  []struct {
		Action string
		Input  map[string]struct {
			Type     string
			Optional bool
		}
		Output map[string]struct{ Type string }
	}
}

func generatedClients(p *Prog, r *Report) {
	n := 0
	for _, pkg := range p.Pkgs {
		rel := strings.TrimPrefix(pkg.PkgPath, modPath+"/")
		if !strings.HasPrefix(rel, "client/") || pkg.Types.Scope().Lookup("requester") == nil {
			continue
		}
		n++
		var ddl clientDDL
		raw, err := os.ReadFile(filepath.Join(p.Root, rel, "ddl.json"))
		if err == nil {
			err = json.Unmarshal(raw, &ddl)
		}
		r.ob("ddl", rel+"/ddl.json", err == nil, "", fmt.Sprint("can not be read: ", err))
		client := ""
		for _, name := range pkg.Types.Scope().Names() {
			if strings.HasSuffix(name, "Client") && p.fn(rel+".New") != nil {
				client = name
			}
		}
		clientRequests(p, r, rel)
		nodeSources(p, r, rel)
		clientOptions(p, r, rel, client, ddl.Metadata.Name)
		clientActions(p, r, rel, client, &ddl)
	}
	r.need("ddl", "generated clients", n, 7)
}

// requests: targets, options and the action asked for.
func clientRequests(p *Prog, r *Report, rel string) {
	const rule = "request"
	f := r.anchor(rule, "(*"+rel+".requester).do")
	if f == nil {
		return
	}
	t := &interp{p: p, terms: true, conds: true, compare: true, counts: true, turns: 2, inline: nothing, name: func(c ssa.CallInstruction) string {
		if g := c.Common().StaticCallee(); g != nil && strings.HasSuffix(fname(g), "mcorpc/client.New") {
			return "NewAgent"
		}
		return ""
	}, record: func(n string) bool { return nameIn(n, "Do", "Discover", "Lock", "Unlock") }}
	for _, n := range []int64{0, 1, 2} {
		e := lens2(lens2(paramTerms(f, "r", "ctx", "handler"), n, "r.client.targets"), 2, "r.client.clientRPCOpts")
		r.judge(rule, t, f, e, fmt.Sprintf("asks the nodes it is for, with %d targets", n), func(o *pathOf) string {
			const agent = "NewAgent(r.client.fw r.client.ddl.Metadata.Name DDL(r.client.ddl))"
			const disc = "r.client.ns.Discover(ctx r.client.fw r.client.filters)"
			service := o.is("r.client.ddl.Metadata.Service")
			find := n == 0 && service != yes
			call, opts := "", ""
			for d := range o.did {
				if a, ok := strings.CutPrefix(d, agent+".Do("); ok {
					call, opts = d, a
				}
				if strings.HasPrefix(d, "r.client.ns.Discover(") && (d != disc || !find) {
					return "can discover nodes though it should not: " + d
				}
			}
			if o.out == "fail" {
				if find && (o.is(disc+"#1==nil") == no || o.is("empty("+disc+")") == yes) || o.is(agent+"#1==nil") == no || call != "" && o.is(call+"#1==nil") == no {
					return ""
				}
				return "can fail though nothing did"
			}
			targets := "Targets(r.client.targets)"
			if n == 0 {
				targets = ""
			}
			all := map[string]bool{}
			for _, x := range strings.Fields(opts) {
				all[strings.TrimPrefix(strings.TrimRight(x, ")]"), "[")] = true
				all[strings.TrimPrefix(strings.TrimSuffix(x, "])"), "[")] = true
			}
			if find {
				targets = "Targets(" + disc + ")"
			}
			opts, ok := strings.CutPrefix(opts, "ctx r.action r.args [")
			switch {
			case !ok:
				return "can ask for something else: " + call
			case o.is(agent+"#1==nil") != yes:
				return "can use a client that could not be made"
			case o.is(call+"#1==nil") != yes || o.out != "succeed" || o.given != noIdentity(call)+".Stats()":
				return "can lose errors or give " + o.given
			case find && (o.is(disc+"#1==nil") != yes || o.is("empty("+disc+")") != no || service != no):
				return "can go on without nodes"
			case targets == "" && strings.Contains(opts, "Targets("), targets != "" && !strings.Contains(opts, targets):
				return "can ask other nodes: " + opts
			case (service == yes) != strings.Contains(opts, "ServiceRequest()"):
				return "can mistake agents for services"
			case !all["r.client.clientRPCOpts"] && !(all["r.client.clientRPCOpts[0]"] && (all["r.client.clientRPCOpts[1]"] || all["r.client.clientRPCOpts[1"])):
				return "can leave out options"
			case !strings.Contains(opts, "Workers(r.client.workers)") && known(o.is("0<r.client.workers"), o.is("r.client.workers<1").not(), o.is("r.client.workers==0").not()) != no:
				return "can leave out workers"
			case strings.Contains(opts, "ReplyExprFilter(r.client.exprFilter)") != (o.is("empty(r.client.exprFilter)") == no):
				return "can leave out the reply filter"
			case !strings.Contains(opts, "ReplyHandler(handler)") && !(strings.Contains(opts, "ReplyHandler(do$") && o.is("r.client.clientOpts.progress") == yes) && o.is("r.client.noReplies") != yes:
				return "can leave out the handler"
			}
			return ""
		})
	}
	for _, c := range callsOf(f) {
		if g := c.Common().StaticCallee(); g != nil && g.Name() == "Targets" && len(c.Common().Args) == 1 {
			r.at(rule, c, "targets are copied", !fieldItself(c.Common().Args[0], "targets", nil), "can use the list of targets when it is no longer locked")
		}
	}
	for _, h := range f.AnonFuncs {
		e := paramTerms(h, "reply", "rpc")
		for _, fv := range h.FreeVars {
			e[fv] = mkTerm(fv.Name())
		}
		t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return n == "handler" }}
		if len(h.Params) == 2 {
			r.perPass(rule, t, h, e, "every reply is handled", passCase{want: []string{"handler(reply rpc)"}})
		}
	}
}

func nodeSources(p *Prog, r *Report, rel string) {
	const rule = "nodes"
	for _, f := range p.Funcs {
		if fnPkgPath(f) != modPath+"/"+rel || f.Name() != "Discover" || f.Signature.Recv() == nil || f.Parent() != nil || len(f.Params) != 4 {
			continue
		}
		for _, n := range []int64{0, 2} {
			t := &interp{p: p, terms: true, conds: true, compare: true, counts: true, turns: 2, inline: func(g *ssa.Function) bool { return g.Parent() == f }, record: func(n string) bool { return strings.HasPrefix(n, "set ") || strings.HasSuffix(n, "Discover") }, name: func(c ssa.CallInstruction) string {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), discPkg) {
					return g.Pkg.Pkg.Name() + "." + g.Name()
				}
				return ""
			}}
			r.judge(rule, t, f, lens2(paramTerms(f, "s", "ctx", "fw", "filters"), n, "s.nodeCache"), fmt.Sprintf("those for the filters, with %d nodes known", n), func(o *pathOf) string {
				if n > 0 {
					if o.out == "fail" || o.given != "s.nodeCache" || o.doing("set ") != "" {
						return "can forget the nodes it knows"
					}
					return ""
				}
				const filter = "parseFilters(filters)"
				const to = ".Timeout((1000000000*fw.Configuration().DiscoveryTimeout))"
				const src = "fw.Configuration().Choria.InventoryDiscoverySource"
				var want []string
				call, failed, calls := "", "", 0
				for _, m := range []string{"inventory", "broadcast", "external", "puppetdb"} {
					if !strings.HasPrefix(strings.ToLower(recvName(f)), m) {
						continue
					}
					want = []string{m + ".New(fw)." + m + ".Discover(ctx ", m + ".Filter(" + filter + ")", m + to}
					if m == "inventory" {
						want[2] = m + ".File(" + src + ")"
					}
				}
				failed = "#1==nil"
				if want == nil {
					want = []string{"s.Options.Discover(ctx fw s.Agent !s.DisablePipedDiscovery "}
					failed = "#2==nil"
				}
				for d := range o.did {
					if strings.Contains(d, ".Discover(") && !strings.HasPrefix(d, "set ") {
						call = noIdentity(d)
						calls++
					}
				}
				if o.out == "fail" {
					if o.is(filter+"#1==nil") == no || o.is("s.Options==nil") == yes || o.is("empty("+src+")") == yes || o.is("empty("+filter+".Compound)") == no && strings.HasPrefix(want[0], "puppetdb") || call != "" && o.is(call+failed) == no {
						return ""
					}
					return "can fail though nothing did"
				}
				switch {
				case calls != 1:
					return fmt.Sprintf("can discover %d times", calls)
				case o.given != call || o.out != "succeed" || o.is(call+failed) != yes:
					return "can lose errors or give " + o.given
				case len(want) > 1 && o.is(filter+"#1==nil") != yes:
					return "can go on without filters"
				case strings.HasPrefix(want[0], "puppetdb") && o.is("empty("+filter+".Compound)") != yes:
					return "can leave out compound filters"
				case !o.did["set "+rel+"."+recvName(f)+".nodeCache="+call]:
					return "can forget what was discovered"
				}
				if !strings.HasPrefix(call, want[0]) {
					return "can ask for " + call
				}
				for _, w := range want[1:] {
					if !strings.Contains(call, w) {
						return "can leave out " + w + " in " + call
					}
				}
				return ""
			})
		}
		r.ob(rule, fname(f)+": gives a copy", !givesField(f, "nodeCache", nil), p.pos(f.Pos()), "can give the list that it keeps")
		if g := r.anchor(rule, strings.TrimSuffix(fname(f), "Discover")+"Reset"); g != nil {
			t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
			r.judge(rule, t, g, paramTerms(g, "s"), "nothing is known after", func(o *pathOf) string {
				if s := "set " + rel + "." + recvName(f) + ".nodeCache="; !o.did[s+"[]"] && !o.did[s+"nil"] {
					return "can keep nodes"
				}
				return ""
			})
		}
	}
	if f := r.anchor(rule, rel+".parseFilters"); f != nil {
		t := &interp{p: p, terms: true, conds: true, counts: true, turns: 2, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "fs[") }}
		for n := int64(0); n < 3; n++ {
			r.judge(rule, t, f, lens2(paramTerms(f, "fs"), n, "fs"), fmt.Sprintf("all filters, of %d", n), func(o *pathOf) string {
				for k := int64(0); k < n; k++ {
					call := fmt.Sprintf("fs[%d](NewFilter())", k)
					switch {
					case !o.did[call]:
						return "can leave out a filter"
					case o.is(call+"==nil") != yes:
						if o.out != "fail" {
							return "can go on with a filter that fails"
						}
						return ""
					}
				}
				if o.out != "succeed" || o.given != "NewFilter()" {
					return "can give " + o.given
				}
				return ""
			})
		}
	}
}

// recvName is the type a method is on.
func recvName(f *ssa.Function) string {
	if n, ok := types.Unalias(deref(f.Signature.Recv().Type())).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// givesField: what is returned can be the list in a field itself.
func givesField(f *ssa.Function, field string, seen map[ssa.Value]bool) bool {
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 && fieldItself(rt.Results[0], field, seen) {
			return true
		}
	}
	return false
}

func fieldItself(v ssa.Value, field string, seen map[ssa.Value]bool) bool {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fieldItself(e, field, seen) {
				return true
			}
		}
	case *ssa.Slice:
		return fieldItself(x.X, field, seen)
	case *ssa.Extract:
		return x.Index == 0 && fieldItself(x.Tuple, field, seen)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if mc := closureOf(x.Call.Value); mc != nil {
			g, _ = mc.Fn.(*ssa.Function)
		}
		return g != nil && fnPkgPath(g) == fnPkgPath(x.Parent()) && givesField(g, field, seen)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldName(fa) == field
		}
	}
	return false
}

func clientOptions(p *Prog, r *Report, rel, client, agent string) {
	const rule = "options"
	typ := "(*" + rel + "." + client + ")."
	t := &interp{p: p, terms: true, conds: true, compare: true, counts: true, turns: 2, inline: inPackage(rel), record: func(n string) bool {
		return strings.HasPrefix(n, "set ") || n == "Reset" || strings.HasPrefix(n, "opts[")
	}}
	set := "set " + rel + "." + client + "."
	for _, k := range []string{"Identity", "Class", "Fact", "Agent", "Combined", "Compound"} {
		f := r.anchor(rule, typ+"Option"+k+"Filter")
		if f == nil {
			continue
		}
		r.judge(rule, t, f, lens2(paramTerms(f, "c", "f"), 2, "f"), "filters are added", func(o *pathOf) string {
			want := "c.filters"
			for _, x := range []string{"f[0]", "f[1]"} {
				if o.is("empty("+x+")") != yes {
					want += " " + k + "Filter(" + x + ")"
				}
			}
			switch {
			case want != "c.filters" && !o.did[set+"filters=["+want+"]"]:
				return "can leave out filters"
			case want == "c.filters" && o.doing(set+"filters=") != "" && !o.did[set+"filters=c.filters"]:
				return "can change filters"
			case !o.did["c.ns.Reset()"]:
				return "can keep nodes discovered with other filters"
			case o.given != "c":
				return "can give " + o.given
			}
			return ""
		})
	}
	for _, m := range []struct {
		name string
		want []string
	}{
		{"Collective", []string{"clientRPCOpts=[c.clientRPCOpts Collective(a)]"}},
		{"InBatches", []string{"clientRPCOpts=[c.clientRPCOpts InBatches(a b)]"}},
		{"DiscoveryTimeout", []string{"clientRPCOpts=[c.clientRPCOpts DiscoveryTimeout(a)]"}},
		{"LimitMethod", []string{"clientRPCOpts=[c.clientRPCOpts LimitMethod(a)]"}},
		{"LimitSize", []string{"clientRPCOpts=[c.clientRPCOpts LimitSize(a)]"}},
		{"LimitSeed", []string{"clientRPCOpts=[c.clientRPCOpts LimitSeed(a)]"}},
		{"ReplyTo", []string{"clientRPCOpts=[c.clientRPCOpts ReplyTo(a)]", "noReplies=true"}},
		{"Targets", []string{"targets=a"}},
		{"Workers", []string{"workers=a"}},
		{"ExprFilter", []string{"exprFilter=a"}},
		{"Reset", []string{"clientRPCOpts=[]", "exprFilter=", "filters=[AgentFilter(" + agent + ")]", "noReplies=false", "ns=c.clientOpts.ns", "targets=[]", "workers=0"}},
	} {
		f := r.anchor(rule, typ+"Option"+m.name)
		if f == nil {
			continue
		}
		r.judge(rule, t, f, paramTerms(f, "c", "a", "b"), "is kept", func(o *pathOf) string {
			for _, w := range m.want {
				if !o.did[set+w] && !(strings.HasSuffix(w, "=[]") && o.did[set+strings.TrimSuffix(w, "[]")+"nil"]) {
					return "can leave out " + w
				}
			}
			switch {
			case o.given != "c":
				return "can give " + o.given
			case m.name == "Reset" && !o.did["c.ns.Reset()"] && !o.did["c.clientOpts.ns.Reset()"]:
				return "can keep nodes discovered with other options"
			case m.name == "ReplyTo" && !o.did["set "+rel+".initOptions.progress=false"]:
				return "can wait for replies"
			}
			return ""
		})
	}
	if f := r.anchor(rule, rel+".New"); f != nil {
		r.judge(rule, t, f, lens2(paramTerms(f, "fw", "opts"), 2, "opts"), "new clients", func(o *pathOf) string {
			const cfg = "fw.Configuration()"
			dt := o.doing("set config.Config.DiscoveryTimeout=")
			long := known(o.is("0<*&initOptions.dt"), o.is("*&initOptions.dt<1").not(), o.is("*&initOptions.dt==0").not())
			switch {
			case !o.did["opts[0](&initOptions)"] || !o.did["opts[1](&initOptions)"]:
				return "can ignore options"
			case o.out == "fail":
				if o.is("DDL()#1==nil", "NewFromBytes(rawDDL)#1==nil") != no {
					return "can fail though nothing did"
				}
				return ""
			case o.is("DDL()#1==nil", "NewFromBytes(rawDDL)#1==nil") != yes || !o.did[set+"ddl=DDL()"] && !o.did[set+"ddl=NewFromBytes(rawDDL)"]:
				return "can be without DDL"
			case !o.did[set+"filters=[AgentFilter("+agent+")]"]:
				return "can address other agents"
			case !o.did[set+"fw=fw"]:
				return "can be without framework"
			case (dt != "") != (long == yes) || dt != "" && !strings.Contains(dt, "*&initOptions.dt.Seconds()"):
				return "can use another timeout"
			case o.is("*&initOptions.ns==nil") == no && (o.doing("set "+rel+".initOptions.ns=") != "" || !o.did[set+"ns=*&initOptions.ns"]):
				return "can replace the node source that was set"
			case o.is("*&initOptions.ns==nil") != no:
				want := map[tri]string{yes: "&PuppetDBNS", no: "&BroadcastNS"}[o.is(cfg+".DefaultDiscoveryMethod==choria")]
				if !o.did["set "+rel+".initOptions.ns="+want] || !o.did[set+"ns="+want] {
					return "can use another node source"
				}
			}
			return ""
		})
	}
}

func clientActions(p *Prog, r *Report, rel, client string, ddl *clientDDL) {
	const rule = "actions"
	plain := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	methods := p.methodsOf(rel + "." + client)
	for _, a := range ddl.Actions {
		var f *ssa.Function
		for n, m := range methods {
			if plain(n) == plain(a.Action) {
				f = m
			}
		}
		r.ob(rule, rel+": "+a.Action, f != nil && f.Signature.Results().Len() == 1, "", "has no method")
		if f == nil || f.Signature.Results().Len() != 1 {
			continue
		}
		names := []string{"c"}
		for _, pr := range f.Params[1:] {
			names = append(names, pr.Name())
		}
		req := rel + "." + typeBase(f.Signature.Results().At(0).Type())
		t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") || n == "SetDefaults" || n == "put" }}
		r.judge(rule, t, f, paramTerms(f, names...), "asks for the action with its inputs", func(o *pathOf) string {
			set := "set " + rel + ".requester."
			name := strings.ToLower(a.Action)
			switch {
			case !o.did[set+"action="+name]:
				return "can ask for another action: " + o.doing(set+"action=")
			case !o.did[set+"client=c"]:
				return "can use another client"
			case !o.did["set "+req+".r=&requester"] || o.given != "&"+typeBase(f.Signature.Results().At(0).Type()):
				return "can give " + o.given
			case !o.did["c.ddl.ActionInterface("+name+").SetDefaults([])"]:
				return "can leave out defaults"
			}
			used := map[string]bool{}
			for k, in := range a.Input {
				put := ""
				for d := range o.did {
					if x, ok := strings.CutPrefix(d, "put([] "+k+" "); ok {
						put = strings.TrimSuffix(x, ")")
					}
				}
				switch {
				case put == "" && in.Optional:
				case put == "":
					return "can leave out the input " + k
				case used[put] || !nameIn(put, names[1:]...):
					return "can give " + put + " as " + k
				case strings.HasPrefix(put, "input") && plain(put) != "input"+plain(k):
					return "can give " + put + " as " + k
				}
				used[put] = true
			}
			for d := range o.did {
				if x, ok := strings.CutPrefix(d, "put([] "); ok {
					k, _, _ := strings.Cut(x, " ")
					if _, ok := a.Input[k]; !ok {
						return "can give an input that is not in the DDL: " + k
					}
				}
			}
			return ""
		})
		for n, m := range p.methodsOf(req) {
			if n == "Do" {
				performs(p, r, m)
				continue
			}
			if len(m.Params) != 2 || m.Signature.Results().Len() != 1 {
				continue
			}
			key := ""
			for k := range a.Input {
				if plain(k) == plain(n) {
					key = k
				}
			}
			t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return n == "put" }}
			r.judge(rule, t, m, paramTerms(m, "d", "v"), "is the input of that name", func(o *pathOf) string {
				if key == "" || !o.did["put(d.r.args "+key+" v)"] || o.given != "d" {
					return "can leave out the input or call it something else: " + o.doing("put(")
				}
				return ""
			})
		}
		res := strings.TrimSuffix(req, "Requester")
		for n, m := range p.methodsOf(res + "Output") {
			if nameIn(n, "ResultDetails", "HashMap", "JSON") || len(m.Params) != 1 || m.Signature.Results().Len() != 1 {
				continue
			}
			key := ""
			for k := range a.Output {
				if plain(k) == plain(n) {
					key = k
				}
			}
			outputAccess(p, r, m, key, a.Output[key].Type)
		}
		for k := range a.Output {
			found := false
			for n := range p.methodsOf(res + "Output") {
				found = found || plain(n) == plain(k)
			}
			r.ob(rule, res+"Output: "+k, found, "", "can not be read")
		}
		for n, want := range map[string]string{"Output).ResultDetails": "d.details", "Output).HashMap": "d.reply", "Result).AllOutputs": "d.outputs", "Result).Stats": "d.stats"} {
			if m := r.anchor(rule, "(*"+res+n); m != nil {
				t := &interp{p: p, terms: true, conds: true, inline: nothing}
				r.judge(rule, t, m, paramTerms(m, "d"), "gives what it is called", func(o *pathOf) string {
					if o.given != want {
						return "can give " + o.given
					}
					return ""
				})
			}
		}
		if m := r.anchor(rule, "(*"+res+"Result).EachOutput"); m != nil {
			t := &interp{p: p, terms: true, conds: true, counts: true, turns: 2, inline: nothing, record: func(n string) bool { return n == "h" }}
			r.judge(rule, t, m, lens2(paramTerms(m, "d", "h"), 2, "d.outputs"), "all outputs", func(o *pathOf) string {
				if !o.did["h(d.outputs[0])"] || !o.did["h(d.outputs[1])"] {
					return "can leave out outputs"
				}
				return ""
			})
		}
	}
	for n, want := range map[string]string{"Sender": "d.sender", "StatusMessage": "d.message", "StatusCode": "d.code"} {
		if m := r.anchor(rule, "(*"+rel+".ResultDetails)."+n); m != nil {
			t := &interp{p: p, terms: true, conds: true, inline: nothing}
			r.judge(rule, t, m, paramTerms(m, "d"), "gives what it is called", func(o *pathOf) string {
				if o.given != want {
					return "can give " + o.given
				}
				return ""
			})
		}
	}
	if m := r.anchor(rule, "(*"+rel+".ResultDetails).OK"); m != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing}
		r.decides(rule, t, m, paramTerms(m, "d"), "only for 0", func(o *pathOf) tri { return o.is("d.code==0") })
	}
}

func typeBase(t types.Type) string {
	s := t.String()
	return s[strings.LastIndex(s, ".")+1:]
}

// performs: the request is made, and every reply is in the result.
func performs(p *Prog, r *Report, f *ssa.Function) {
	const rule = "replies"
	t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool { return strings.HasPrefix(n, "set ") || n == "do" }}
	made := strings.TrimSuffix(recvName(f), "Requester")
	pkg := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/")
	handler := "Do$1"
	r.judge(rule, t, f, paramTerms(f, "d", "ctx"), "gives the result", func(o *pathOf) string {
		const ddl = "d.r.client.ddl.ActionInterface(d.r.action)#1==nil"
		do := "d.r.do(ctx " + handler + ")"
		set := "set " + pkg + "." + made + "Result."
		switch {
		case o.out == "fail":
			if o.is(ddl) != no && !(o.did[do] && o.is(do+"#1==nil") == no) {
				return "can fail though nothing did"
			}
		case o.is(ddl) != yes:
			return "can go on with an unknown action"
		case !o.did[do] || o.is(do+"#1==nil") != yes || o.out != "succeed":
			return "can lose errors or leave out the request"
		case o.given != "&"+made+"Result" || !o.did[set+"stats="+do] || !o.did[set+"ddl=d.r.client.ddl"]:
			return "can give " + o.given
		}
		return ""
	})
	n := 0
	for _, h := range f.AnonFuncs {
		if h.Name() != handler || len(h.Params) != 2 {
			continue
		}
		n++
		e := paramTerms(h, "reply", "rpc")
		for _, fv := range h.FreeVars {
			e[fv] = mkTerm(fv.Name())
		}
		t := &interp{p: p, terms: true, conds: true, inline: nothing, record: func(n string) bool {
			return strings.HasPrefix(n, "set ") || nameIn(n, "SetOutputDefaults", "Lock", "Unlock", "Unmarshal", "send", "Decode")
		}}
		r.judge(rule, t, h, e, "every reply is in the result", func(o *pathOf) string {
			set := "set " + pkg + "."
			if o.is("rpc==nil") == yes {
				if o.doing("set ") != "" {
					return "can add replies that are filtered"
				}
				return ""
			}
			if o.is("rpc==nil") != no {
				return "can use replies that are filtered"
			}
			out := "&" + made + "Output{details=&ResultDetails reply=[]}"
			if d := o.doing(set + made + "Output.reply="); d == "" {
				return "can leave out data"
			}
			for _, w := range []string{"ResultDetails.code=rpc.Statuscode", "ResultDetails.message=rpc.Statusmsg", "ResultDetails.sender=reply.SenderID()", "ResultDetails.ts=reply.Time()", made + "Output.details=&ResultDetails"} {
				if !o.did[set+w] {
					return "can leave out " + w
				}
			}
			if !o.did["addl.SetOutputDefaults([])"] {
				return "can leave out defaults"
			}
			if !o.did["Unmarshal(rpc.Data &"+made+"Output.reply)"] {
				return "can leave out the data"
			}
			if o.is("d.outc==nil") == no {
				if !o.did["send(d.outc "+out+")"] {
					return "can leave out replies"
				}
				return ""
			}
			for _, w := range [][2]string{{"outputs", "&" + made + "Output"}, {"rpcreplies", "&RPCReply"}} {
				sets := 0
				for d := range o.did {
					if strings.HasPrefix(d, set+made+"Result."+w[0]+"=") {
						sets++
					}
				}
				if sets != 1 || o.doing(set+made+"Result."+w[0]+"=[dres."+w[0]+" "+w[1]) == "" {
					return "can leave out replies: " + o.doing(set+made+"Result."+w[0])
				}
			}
			for _, w := range []string{"Sender=reply.SenderID()", "RPCReply=rpc"} {
				if !o.did["set providers/agent/mcorpc/replyfmt.RPCReply."+w] {
					return "can leave out " + w
				}
			}
			if !o.did["dres.mu.Lock()"] || !o.did["dres.mu.Unlock()"] {
				return "can lose replies that come at the same time"
			}
			return ""
		})
	}
	r.need(rule, fname(f)+": handlers", n, 1)
}

// outputAccess: what is given is the output, when it is what the DDL says.
func outputAccess(p *Prog, r *Report, m *ssa.Function, key, typ string) {
	const rule = "outputs"
	want := map[string]string{"string": "string", "integer": "float64", "number": "float64", "float": "float64", "boolean": "bool", "hash": "map[string]any", "array": "[]any"}[typ]
	t := &interp{p: p, terms: true, conds: true, inline: nothing}
	n := 0
	val := "d.reply[" + key + "]"
	r.judge(rule, t, m, paramTerms(m, "d"), "is the output of that name", func(o *pathOf) string {
		switch {
		case key == "":
			return "is not in the DDL"
		case o.given == val, o.given == "int("+val+")" && want == "float64":
			n++
		case nameIn(o.given, "", "0", "false", "nil", "[]"):
			for h := range o.have {
				if strings.HasSuffix(h, " false") && (strings.Contains(h, "is("+val) || strings.Contains(h, "has("+val)) || strings.HasSuffix(h, " true") && strings.Contains(h, "nil=="+val) {
					return ""
				}
			}
			return "can give nothing though there is something"
		default:
			return "can give " + o.given
		}
		return ""
	})
	if key != "" {
		r.need(rule, fname(m)+": gives it", n, 1)
	}
	for _, b := range m.Blocks {
		for _, i := range b.Instrs {
			if ta, ok := i.(*ssa.TypeAssert); ok {
				have := strings.ReplaceAll(ta.AssertedType.String(), "interface{}", "any")
				r.at(rule, ta, "is a "+want, ta.CommaOk && (want == "" || have == want), "panics or is never a "+have+" when the output is a "+typ)
			}
		}
	}
}
