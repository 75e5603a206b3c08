package main

import (
	"fmt"
	"strings"
)

// splitList splits a list as it is shown into what is in it.
func splitList(l string) []string {
	l = strings.TrimSuffix(strings.TrimPrefix(l, "["), "]")
	var out []string
	depth, cur := 0, ""
	for _, c := range l {
		switch {
		case c == '(' || c == '[':
			depth++
		case c == ')' || c == ']':
			depth--
		case c == ' ' && depth == 0:
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += string(c)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func sameSet(a, b []string) bool {
	return len(minus(a, b)) == 0 && len(minus(b, a)) == 0
}

func minus(a, b []string) []string {
	var out []string
	for _, x := range a {
		if !nameIn(x, b...) {
			out = append(out, x)
		}
	}
	return out
}

// listIs: a list that is held in the end has this in it, in any order.
func (o *pathOf) listIs(place string, want []string) string {
	got := o.holds(place)
	switch got {
	case "", "nil", "[]":
		got = ""
	case "allSubjects":
		got = ">"
	}
	have := splitList(strings.ReplaceAll(got, "EncodeToString(", "x("))
	if more := minus(have, want); len(more) > 0 {
		return fmt.Sprintf("%s has %v", place, more)
	}
	if less := minus(want, have); len(less) > 0 {
		return fmt.Sprintf("%s lacks %v", place, less)
	}
	return ""
}

func (o *pathOf) listsAre(user string, pubs, subs, pubDeny, subDeny []string) string {
	return firstOf(
		o.listIs(user+".Permissions.Publish.Allow", pubs),
		o.listIs(user+".Permissions.Subscribe.Allow", subs),
		o.listIs(user+".Permissions.Publish.Deny", pubDeny),
		o.listIs(user+".Permissions.Subscribe.Deny", subDeny))
}

// grantedExactly: the lists a token's holder gets are those its claims stand for, all of them.
func grantedExactly(p *Prog, r *Report) {
	const rule = "exactly"
	all := []string{">"}
	t := &interp{p: p, terms: true, conds: true, inline: inPackage("broker/network")}
	if f := r.anchor(rule, "(*"+authT+").setClientPermissions"); f != nil {
		e := paramTerms(f, "a", "user", "caller", "client", "log")
		e[cellOf("user.Permissions.Response")] = isNil
		r.judge(rule, t, f, e, "what a client token grants", func(o *pathOf) string {
			for h := range o.have {
				if strings.HasPrefix(h, "if empty([$SYS") || strings.HasPrefix(h, "if empty([*.reply") || strings.HasPrefix(h, "if empty([$JS") {
					if strings.HasSuffix(h, " true") {
						return "" // lists that start with a subject are not empty
					}
				}
			}
			return o.considering(func(ask func(conds ...string) bool) string {
				isClient := !ask("client==nil")
				perms := isClient && !ask("client.Permissions==nil")
				perm := func(n string) bool { return perms && ask("client.Permissions."+n) }
				choria := ask("user.Account==a.choriaAccount")
				provisioning := !choria && ask("user.Account==a.provisioningAccount")
				if perm("OrgAdmin") {
					return o.listsAre("user", all, all, nil, nil)
				}
				var pubs, subs []string
				pub := func(x ...string) { pubs = append(pubs, x...) }
				sub := func(x ...string) { subs = append(subs, x...) }
				switch {
				case ask("empty(caller)"):
					sub("*.reply.>")
				case ask("Enabled()"):
					sub("*.reply.x(Sum256(caller)).>")
				default:
					sub("*.reply.x(Sum(caller)).>", "*.reply.x(Sum256(caller)).>")
				}
				pub("$SYS.REQ.USER.INFO")
				if isClient {
					sub("client.AdditionalSubscribeSubjects")
					pub("client.AdditionalPublishSubjects")
				}
				if choria && perm("StreamsAdmin") {
					sub("$JS.EVENT.>")
					pub("$JS.>")
				}
				if choria && perm("StreamsUser") {
					sub("client.OrganizationUnit.republish.>")
					for _, x := range strings.Fields("INFO STREAM.NAMES STREAM.LIST STREAM.INFO.* STREAM.MSG.GET.* STREAM.MSG.DELETE.* DIRECT.GET.* DIRECT.GET.*.> CONSUMER.CREATE.* CONSUMER.CREATE.*.> CONSUMER.DURABLE.CREATE.*.* CONSUMER.DELETE.*.* CONSUMER.NAMES.* CONSUMER.LIST.* CONSUMER.INFO.*.* CONSUMER.MSG.NEXT.*.*") {
						pub("$JS.API." + x)
					}
					pub("$JS.ACK.>", "$JS.FC.>", "$KV.>", "$O.>")
				}
				if perm("EventsViewer") {
					switch {
					case choria:
						sub("choria.lifecycle.event.>", "choria.machine.watcher.>", "choria.machine.transition")
					case provisioning:
						sub("choria.lifecycle.event.*.provision_mode_server")
					}
				}
				if perm("ElectionUser") {
					switch {
					case choria:
						pub("$JS.API.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.>")
					case provisioning:
						pub("choria.streams.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.provisioner")
					}
				}
				if choria && perm("Governor") && (perm("StreamsUser") || perm("StreamsAdmin")) {
					pub("*.governor.*", "choria.lifecycle.event.governor.>")
				}
				if perm("FleetManagement") || perm("SignedFleetManagement") {
					pub("*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation")
				}
				return o.listsAre("user", pubs, subs, nil, nil)
			})
		})
	}
	if f := r.anchor(rule, "(*"+authT+").setServerPermissions"); f != nil {
		for n := int64(0); n < 3; n++ {
			t := &interp{p: p, terms: true, conds: true, counts: true, turns: 2, inline: inPackage("broker/network")}
			e := lens2(paramTerms(f, "a", "user", "claims", "log"), n, "claims.Collectives")
			r.judge(rule, t, f, e, fmt.Sprintf("what a server token with %d collectives grants", n), func(o *pathOf) string {
				return o.considering(func(ask func(conds ...string) bool) string {
					if ask("a.denyServers") {
						return o.listsAre("user", nil, nil, all, all)
					}
					if ask("claims==nil") {
						return o.listsAre("user", all, nil, []string{"*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation"}, []string{"*.reply.>", "choria.federation.>", "choria.lifecycle.>"})
					}
					if n == 0 {
						return o.listsAre("user", nil, nil, all, all)
					}
					var pubs, subs []string
					pub := func(x ...string) { pubs = append(pubs, x...) }
					sub := func(x ...string) { subs = append(subs, x...) }
					perms := !ask("claims.Permissions==nil")
					perm := func(n string) bool { return perms && ask("claims.Permissions."+n) }
					pub("choria.lifecycle.>", "choria.machine.transition", "choria.machine.watcher.>", "claims.AdditionalPublishSubjects")
					for k := int64(0); k < n; k++ {
						c := fmt.Sprintf("claims.Collectives[%d]", k)
						pub(c+".reply.>", c+".broadcast.agent.registration", "choria.federation."+c+".collective")
						sub(c+".broadcast.agent.>", c+".node.claims.ChoriaIdentity", c+".reply.x(Sum256(claims.ChoriaIdentity)).>")
						if !ask("Enabled()") {
							sub(c + ".reply.x(Sum(claims.ChoriaIdentity)).>")
						}
						if perm("ServiceHost") {
							sub(c + ".broadcast.service.>")
						}
						if perm("Submission") {
							pub(c + ".submission.in.>")
						}
						if perm("Governor") && perm("Streams") {
							pub(c + ".governor.*")
						}
					}
					if perm("Streams") {
						prefix := "choria.streams"
						if ask("claims.OrganizationUnit==choria") {
							prefix = "$JS.API"
						}
						sub("claims.OrganizationUnit.republish.>")
						for _, x := range strings.Fields("STREAM.INFO.* STREAM.MSG.GET.* STREAM.MSG.DELETE.* DIRECT.GET.* DIRECT.GET.*.> CONSUMER.CREATE.* CONSUMER.CREATE.*.> CONSUMER.DURABLE.CREATE.*.* CONSUMER.INFO.*.* CONSUMER.MSG.NEXT.*.*") {
							pub(prefix + "." + x)
						}
						pub("$JS.ACK.>", "$JS.FC.>")
					}
					return o.listsAre("user", pubs, subs, nil, nil)
				})
			})
		}
	}
}
