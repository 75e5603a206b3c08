package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splitElem: v is element k of a slice made by the named call; k is -1 when not constant.
func splitElem(v ssa.Value, names ...string) (c *ssa.Call, k int64) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, 0
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil, 0
	}
	c, _ = callOf(ia.X)
	if c == nil || !nameIn(cname(&c.Call), names...) {
		return nil, 0
	}
	if i, ok := constInt(ia.Index); ok {
		return c, i
	}
	return c, -1
}

// regexPattern is the constant pattern a regular expression was compiled from.
func regexPattern(p *Prog, re ssa.Value) string {
	fl := &Flow{P: p, Derive: derive(map[string]int{"regexp.MustCompile": 0, "regexp.Compile": 0})}
	pat := ""
	for _, o := range fl.From(re) {
		s, ok := constString(o.V)
		if !ok {
			if g := strings.TrimPrefix(o.Label, "global:"); g != o.Label {
				s = p.globalPattern(g)
			}
		}
		if s == "" || (pat != "" && pat != s) {
			return ""
		}
		pat = s
	}
	return pat
}

// globalPattern is the constant pattern a package level regular expression is compiled from.
func (p *Prog) globalPattern(name string) string {
	for _, pk := range p.SSA.AllPackages() {
		ini := pk.Func("init")
		if ini == nil || !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, b := range ini.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || short(g.String()) != name {
					continue
				}
				if c, _ := callOf(st.Val); c != nil && nameIn(cname(&c.Call), "regexp.MustCompile") {
					if s, ok := constString(c.Call.Args[0]); ok {
						return s
					}
				}
			}
		}
	}
	return ""
}

func authzSpec(p *Prog) *Spec {
	s := newSpec(p)
	s.field("authz.off", "config.Config.RPCAuthorization", False)
	split := derive(map[string]int{"strings.Split": 0, "strings.ToLower": 0, "strings.TrimSpace": 0, "strings.Fields": 0})
	fl := &Flow{P: p, Derive: split}
	reFl := &Flow{P: p, Derive: derive(map[string]int{"strings.Split": 0, "regexp.Compile": 0, "regexp.MustCompile": 0, "(*regexp.Regexp).FindStringSubmatch": 1})}
	pol := mco + ".actionPolicyPolicy."
	reqF := "field:" + mco + ".Request."
	s.cond(func(v ssa.Value, o Outcome) []string {
		x, y, eq, ok := equality(v, o)
		if !ok || !eq {
			return nil
		}
		var out []string
		for _, pr := range [][2]ssa.Value{{x, y}, {y, x}} {
			a, b := pr[0], pr[1]
			if k, isK := constString(a); isK {
				// providers
				if fl.Only(b, "field:config.Config.RPCAuthorizationProvider") {
					out = append(out, "prov."+strings.TrimSuffix(k, "_policy"))
				}
				if k == "discovery" && fl.Only(b, reqF+"Agent") {
					out = append(out, "discovery")
				}
				if k == "*" {
					for f, n := range map[string]string{"caller": "caller", "actions": "action", "facts": "facts", "classes": "classes"} {
						if loadedField(b) == pol+f {
							out = append(out, n)
						}
					}
					if _, isElem := elemOfField(fl, b, "field:tokens.ClientIDClaims.AllowedAgents"); isElem {
						if c, _ := splitElem(b, "strings.Split"); c == nil {
							out = append(out, "list.agent", "list.action", "two")
						} else if _, i := splitElem(b, "strings.Split"); i == 1 {
							out = append(out, "list.action")
						}
					}
				}
				if k == "allow" {
					if c, _ := splitElem(b, "(*regexp.Regexp).FindStringSubmatch"); c != nil {
						if strings.Contains(regexPattern(p, recvArg(&c.Call)), "policy\\s+default") {
							out = append(out, "default.allow")
						} else {
							out = append(out, "allow.rule")
						}
					}
				}
				continue
			}
			if fl.Only(a, reqF+"CallerID") && onlyOf(fl, b, "field:"+pol+"caller", "field:"+pol+"groups") {
				out = append(out, "caller")
			}
			if fl.Only(a, reqF+"Action") && fl.Only(b, "field:"+pol+"actions") {
				out = append(out, "action")
			}
			if c, i := splitElem(b, "strings.Split"); c != nil {
				if _, isElem := elemOfField(fl, c.Call.Args[0], "field:tokens.ClientIDClaims.AllowedAgents"); isElem {
					if i == 0 && fl.Only(a, reqF+"Agent") {
						out = append(out, "list.agent")
					}
					if i == 1 && fl.Only(a, reqF+"Action") {
						out = append(out, "list.action")
					}
				}
			}
			if k, isN := constInt(a); isN && k == 2 {
				if c, isC := b.(*ssa.Call); isC && cname(&c.Call) == "builtin.len" {
					if sc, _ := callOf(c.Call.Args[0]); sc != nil && cname(&sc.Call) == "strings.Split" {
						out = append(out, "two")
					}
				}
			}
		}
		return out
	})
	s.result("caller", 0, True, func(c ssa.CallInstruction) bool {
		return fl.Only(args(c.Common())[0], reqF+"CallerID") && reFl.Only(recvArg(c.Common()), "field:"+pol+"caller", "?nil")
	}, "(*regexp.Regexp).MatchString")
	s.result("facts", 0, True, nil, "filter/facts.MatchFile")
	s.result("classes", 0, True, func(c ssa.CallInstruction) bool { return fl.Only(args(c.Common())[0], "field:"+pol+"classes") }, "filter/classes.MatchFile")
	s.result("unconf", 0, True, func(c ssa.CallInstruction) bool {
		oc, _ := callOf(c.Common().Args[0])
		if oc == nil || mname(&oc.Call) != "Option" {
			return false
		}
		k, _ := constString(args(&oc.Call)[0])
		d, _ := constString(args(&oc.Call)[1])
		return k == "plugin.actionpolicy.allow_unconfigured" && (d == "n" || d == "false" || d == "0" || d == "no")
	}, "internal/util.StrToBool")
	s.result("rego", 0, True, nil, "(*opa.Evaluator).Evaluate")
	s.result("rego.ok", 1, Nil, nil, "(*opa.Evaluator).Evaluate")
	s.result("token", 1, Nil, func(c ssa.CallInstruction) bool { return fl.Only(c.Common().Args[0], reqF+"CallerPublicData") }, "tokens.ParseClientIDTokenUnverified", "tokens.ParseClientIDToken")
	for _, n := range []string{"internal/util.StrToBool", "(*opa.Evaluator).Evaluate", "filter/facts.MatchFile", "filter/classes.MatchFile"} {
		s.opaque[n] = true
	}
	return s
}

func onlyOf(fl *Flow, v ssa.Value, labels ...string) bool {
	ls := fl.Labels(v)
	n := 0
	for l := range ls {
		if l == "?zero" || l == "?nil" {
			continue
		}
		if !nameIn(l, labels...) {
			return false
		}
		n++
	}
	return n > 0
}

// elemOfField: the value comes from elements of a field only.
func elemOfField(fl *Flow, v ssa.Value, label string) (string, bool) {
	ls := fl.Labels(v)
	delete(ls, "?zero")
	delete(ls, "?nil")
	if len(ls) == 1 && ls[label] {
		return label, true
	}
	return "", false
}

func init() {
	register(&Check{
		ID: "A02", Level: "proof",
		Rule:        "every return of the request authorizer that grants either saw authorization disabled or, for the configured provider: an action policy line whose caller, action, facts and classes all matched, or the policy's or configuration's default; a Rego evaluation that gave true without error; the request's own token with an agent list entry for the agent and action, or a Rego policy. A denying line ends the evaluation; the default line sets the default of its file and nothing else does; the file read is the one of the agent asked for, or the default file; a line with facts or classes needs all of them; a group is its members, whichever line of the groups file names them, and groups that can not be read deny",
		Explanation: "path-sensitive must-facts through all providers at every granting return, facts carrying what was compared with what; control-flow reachability from a matching policy line back to reading lines",
		Assume:      []string{"the OPA library evaluates policies correctly", "allow_unconfigured is meant by operators that set it"},
		Run: func(p *Prog, r *Report) {
			f := r.anchor("grant", mco+".AuthorizeRequest")
			if f == nil {
				return
			}
			s := authzSpec(p)
			a := s.facts()
			n := r.returnsRequire("grant", a, f, 0, True, anyOf(
				has("authz.off"),
				has("prov.action", "allow.rule", "caller", "action", "facts", "classes"),
				has("prov.action", "default.allow"),
				has("prov.action", "unconf"),
				has("prov.rego", "rego", "rego.ok"),
				allOf(has("token"), has("prov.aaasvc"), anyOf(has("discovery"), has("rego", "rego.ok"), has("two", "list.agent", "list.action"))),
			), "grants a request", "an explicit permission from the configured policy")
			r.need("grant", "granting returns", n, 1)
			denyStops(p, r)
			policies(p, r)
			opaEval(p, r)
			n = 0
			for _, c := range p.callsTo("opa.Policy") {
				n++
				fl := &Flow{P: p}
				r.at("policy-source", c, "policy evaluated", fl.Only(c.Common().Args[0], "field:tokens.ClientIDClaims.OPAPolicy"), "must be the policy in the token of the caller")
			}
			r.need("policy-source", "policies from tokens", n, 1)
		},
	})
}

// denyStops: once a line of a policy matched a request no further line is read.
func denyStops(p *Prog, r *Report) {
	n := 0
	for _, f := range p.Funcs {
		if fnPkgPath(f) != modPath+"/"+mco || f.Parent() != nil {
			continue
		}
		var scans []*ssa.BasicBlock
		hasRule := false
		calls(f, func(c ssa.CallInstruction) {
			if cname(c.Common()) == "(*bufio.Scanner).Scan" {
				scans = append(scans, c.Block())
			}
			if cname(c.Common()) == "(*regexp.Regexp).FindStringSubmatch" && strings.Contains(regexPattern(p, recvArg(c.Common())), "allow|deny") {
				hasRule = true
			}
		})
		if len(scans) == 0 || !hasRule {
			continue
		}
		// a test of what a repo function said about the match
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c, idx := callOf(iff.Cond)
			neg := false
			if u, isU := iff.Cond.(*ssa.UnOp); isU && u.Op == token.NOT {
				c, idx = callOf(u.X)
				neg = true
			}
			if c == nil || idx != 0 || c.Call.StaticCallee() == nil || !p.InRepo[c.Call.StaticCallee()] {
				continue
			}
			s := authzSpec(p)
			if !s.facts().resultHas(c, 0, True, "caller", "action", "facts", "classes") {
				continue
			}
			n++
			succ := b.Succs[0]
			if neg {
				succ = b.Succs[1]
			}
			again := false
			for _, sb := range scans {
				if reaches(succ, sb) {
					again = true
				}
			}
			r.at("first-match", iff, "matching policy line", !again, "must decide the request without reading further lines")
		}
	}
	r.need("first-match", "tests for a matching policy line", n, 1)
}

// resultHas: the outcome of the call implies the facts.
func (a *Facts) resultHas(c *ssa.Call, idx int, o Outcome, fs ...string) bool {
	g := c.Call.StaticCallee()
	set := a.retImplies(g, idx, o)
	return !set.top && has(fs...)(set)
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// opaEval: the evaluator says yes only with the boolean result of an evaluation without error.
func opaEval(p *Prog, r *Report) {
	f := r.anchor("rego", "(*opa.Evaluator).Evaluate")
	if f == nil {
		return
	}
	s := newSpec(p)
	s.result("evaluated", 1, Nil, nil, "(github.com/open-policy-agent/opa/v1/rego.PreparedEvalQuery).Eval", "(*github.com/open-policy-agent/opa/v1/rego.PreparedEvalQuery).Eval")
	a := s.facts()
	n := r.returnsRequire("rego", a, f, 0, True, has("evaluated"), "reports a policy satisfied", "an evaluation without error")
	r.need("rego", "positive returns of the evaluator", n, 1)
	for _, ret := range a.returns(f) {
		v := ret.Results[0]
		if k, ok := constBool(v); ok && !k {
			continue
		}
		fl := &Flow{P: p}
		r.at("rego", ret, "value reported", onlyOf(fl, v, "field:github.com/open-policy-agent/opa/v1/rego.ExpressionValue.Value"), "must be the value of the policy's query; got "+strings.Join(sortedKeys(fl.Labels(v)), ","))
	}
}
