package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// policies: what a line of an action policy means, and where policies are read from.
func policies(p *Prog, r *Report) {
	const rule = "meaning"
	if f := r.anchor(rule, "(*"+mco+".actionPolicy).evaluatePolicy"); f != nil {
		// what is given at the end unless a line decided
		kept := map[ssa.Value]bool{}
		var root func(v ssa.Value)
		root = func(v ssa.Value) {
			if kept[v] {
				return
			}
			switch x := v.(type) {
			case *ssa.Phi:
				kept[v] = true
				for _, e := range x.Edges {
					root(e)
				}
			case *ssa.UnOp:
				if al, is := x.X.(*ssa.Alloc); is && !kept[al] {
					kept[al] = true
					for _, rf := range *al.Referrers() {
						if st, is := rf.(*ssa.Store); is && st.Addr == ssa.Value(al) {
							root(st.Val)
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				root(ret.Results[0])
			}
		}
		in := helpers(p, f)
		decides := func(g *ssa.Function) bool {
			return in(g) && !nameIn(g.Name(), "allowUnconfigured") && !p.reaches(g, "filter/facts.MatchFile")
		}
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: func(g *ssa.Function) bool {
			return decides(g) || g.Signature.Recv() != nil && recvName(g) == "actionPolicyPolicy" && g.Signature.Results().Len() == 0
		}, record: func(n string) bool { return strings.HasPrefix(n, "set ") || strings.HasPrefix(n, "check") }}
		passes := 0
		r.judge(rule, t, f, paramTerms(f, "a", "f"), "one line of a policy", func(o *pathOf) string {
			passes++
			matched := false
			for d := range o.did {
				matched = matched || strings.HasPrefix(d, "a.check")
			}
			if matched {
				for k, want := range map[string]string{"caller": "[2]", "actions": "[3]", "facts": "[4]", "classes": "[6]"} {
					if y := o.cells[cellOf("a.matcher."+k)]; y == nil || !strings.HasSuffix(showTerm(y), want) {
						return "matches the " + k + " with something else than what the line says about it"
					}
				}
			}
			// what applies when no line matches
			cond, says := "", unknown
			for h := range o.have {
				c, y := strings.CutSuffix(strings.TrimPrefix(h, "if "), " true")
				c = strings.TrimSuffix(c, " false")
				switch {
				case !strings.HasPrefix(c, "allow==") && !strings.HasSuffix(c, "==allow"):
				case y:
					cond, says = c, yes
				default:
					cond, says = c, no
				}
			}
			isDefault := false
			for h := range o.have {
				isDefault = isDefault || !strings.HasPrefix(h, "if nil==") && strings.Contains(h, "policy") && strings.Contains(h, "default") && strings.HasSuffix(h, " true") || strings.HasPrefix(h, "if nil==") && strings.Contains(h, "default") && strings.HasSuffix(h, " false")
			}
			if matched {
				says = unknown // a line that did not match the request
			}
			var got constant.Value
			for v := range kept {
				if x := o.cells[v]; x != nil {
					switch x := v.(type) {
					case *ssa.Phi:
						if !strings.HasPrefix(x.Block().Comment, "for.") {
							continue
						}
					}
					got = x
				}
			}
			switch {
			case got == nil:
				return ""
			case got.Kind() == constant.Bool && says == unknown:
				return "a line that sets no default changes what applies when none matches"
			case got.Kind() == constant.Bool && constant.BoolVal(got) != (says == yes):
				return "takes the default for its opposite"
			case got.Kind() == constant.Bool:
				return ""
			case isDefault && !strings.Contains(showTerm(got), "FindStringSubmatch"):
				return "does not take the default the line gives: " + cond
			}
			return ""
		})
		r.need(rule, "passes over policy lines", passes, 3)
	}
	if f := r.anchor(rule, "(*"+mco+".actionPolicy).lookupPolicyFile"); f != nil {
		in := helpers(p, f)
		t := &interp{p: p, terms: true, conds: true, inline: func(g *ssa.Function) bool { return in(g) && !nameIn(g.Name(), "shouldUseDefault") }}
		r.judge("file", t, f, paramTerms(f, "a"), "where the policy is read from", func(o *pathOf) string {
			o.given = flatJoin(o.given)
			own := "Join(Dir(a.cfg.ConfigFile) policies a.req.Agent.policy)"
			switch {
			case o.out != "succeed", o.given == own, o.given == "":
				return ""
			case !strings.HasPrefix(o.given, "Join(Dir(a.cfg.ConfigFile) policies ") || !strings.Contains(o.given, "default_name"):
				return "reads " + o.given
			case o.is("FileExist("+own+")") == yes || o.is("FileExist(Join(Join(Dir(a.cfg.ConfigFile) policies) a.req.Agent.policy))") == yes:
				return "reads the default though the agent has a policy"
			case o.is("a.shouldUseDefault()") == no:
				return "reads a default that is not enabled"
			}
			return ""
		})
	}
	if f := r.anchor(rule, "(*"+mco+".actionPolicyPolicy).MatchesFacts"); f != nil {
		t := &interp{p: p, terms: true, conds: true, turns: 2, counts: true, inline: helpers(p, f), record: func(n string) bool { return n == "MatchFile" }}
		r.judge("facts", t, f, paramTerms(f, "p", "cfg", "log"), "all facts have to match", func(o *pathOf) string {
			if o.out == "fail" || o.given == "false" || o.is("p.facts==*") == yes {
				return ""
			}
			met := ""
			if strings.HasPrefix(o.given, "MatchFile(") {
				met = o.given
			} else if o.given != "true" {
				return "gives " + o.given
			}
			for h := range o.have {
				if strings.HasPrefix(h, "if MatchFile(") && strings.HasSuffix(h, " true") {
					met += h
				}
			}
			if met == "" {
				return "matches without facts that do"
			}
			for h := range o.have {
				// the elements there are
				i := strings.Index(h, "ParseFactFilterString(")
				if i < 0 || !strings.HasPrefix(h, "if nil==") {
					continue
				}
				one := strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(h[i:], " true"), " false"), "#1")
				if !strings.Contains(met, one) {
					return "matches without " + one
				}
				if strings.HasSuffix(one, "[0])") && o.is("1<len("+strings.TrimSuffix(strings.TrimPrefix(one, "ParseFactFilterString("), "[0])")+")") == yes && !strings.Contains(met, strings.TrimSuffix(one, "[0])")+"[1])") {
					return "does not look at all facts"
				}
			}
			return ""
		})
	}
	if f := r.anchor(rule, "(*"+mco+".actionPolicy).parseGroupFile"); f != nil {
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: helpers(p, f), record: func(n string) bool { return n == "put" }}
		r.judge("groups", t, f, paramTerms(f, "a", "gfile"), "one line of the groups", func(o *pathOf) string {
			for d := range o.did {
				d = strings.TrimSuffix(strings.TrimPrefix(d, "put("), ")")
				rest, is := strings.CutPrefix(d, "a.groups ")
				i := strings.Index(rest, "[0] ")
				if !is || i < 0 || !strings.Contains(rest[i+4:], rest[:i]+"[1:]") {
					return "a group is not its name and those in it but " + d
				}
			}
			return ""
		})
	}
}

// flatJoin: a path joined to one that was joined before.
func flatJoin(s string) string {
	for {
		rest, is := strings.CutPrefix(s, "Join(Join(")
		if !is {
			return s
		}
		depth := 1
		for i := range rest {
			switch rest[i] {
			case '(':
				depth++
			case ')':
				depth--
			}
			if depth == 0 {
				s = "Join(" + rest[:i] + rest[i+1:]
				break
			}
		}
		if depth != 0 {
			return s
		}
	}
}
