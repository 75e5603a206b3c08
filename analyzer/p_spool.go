package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Submission: what is submitted is published until it is delivered, expired or out of tries.

func init() {
	register(&Check{ID: "U01", Level: "other",
		Rule:        "each spooled message is published as submitted, exactly when it is valid and its turn, removed only when delivered, unreliable, invalid, expired or out of tries and otherwise counted and kept, written all at once, and every priority has a directory and a worker",
		Explanation: "Every path through one pass over the messages of the spool, through what validates, builds, writes, counts and removes messages, and through what sets the spool up is explored with values named by where they come from; what is published, removed, written and returned is compared with what the conditions on the path call for.",
		Run:         submissions})
}

const subPkg = "submission"

func submissions(p *Prog, r *Report) {
	spoolPublish(p, r)
	spoolMessage(p, r)
	spoolStore(p, r)
	spoolWorkers(p, r)
}

func spoolPublish(p *Prog, r *Report) {
	f := r.anchor("publish", "(*"+subPkg+".Spool).Run")
	if f == nil {
		return
	}
	h := handlerOf(f)
	if h == nil {
		r.ob("publish", "the handler of messages", false, p.pos(f.Pos()), "is not found")
		return
	}
	t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: func(g *ssa.Function) bool {
		return inPackage(subPkg)(g) && !nameIn(g.Name(), "NatsMessage", "Discard", "Complete", "IncrementTries", "Submit")
	},
		call: gives(map[string]constant.Value{"context.WithTimeout": mkTerm("ctx")}),
		record: func(n string) bool {
			return nameIn(n, "PublishRawMsg", "RequestRawMsgWithContext", "Discard", "Complete", "IncrementTries", "Submit")
		}}
	e := paramTerms(h, "msgs")
	for _, fv := range h.FreeVars {
		e[fv] = mkTerm(fv.Name())
	}
	const (
		msg  = "msgs[].NatsMessage(s.prefix s.opts.seedFile s.opts.tokenFile)"
		pub  = "s.conn.PublishRawMsg(" + msg + ")"
		req  = "s.conn.RequestRawMsgWithContext(ctx " + msg + ")"
		ack  = "Unmarshal(" + req + ".Data &JSPubAckResponse)==nil"
		drop = "s.store.Discard(msgs[])"
		more = "s.store.IncrementTries(msgs[])"
	)
	good := []string{msg + "#1==nil true", "msgs[].Reliable true"}
	with := func(c ...string) []string { return append(append([]string{}, good...), c...) }
	r.perPass("publish", t, h, e, "each message",
		passCase{when: []string{msg + "#1==nil false"}, want: []string{drop}},
		passCase{when: []string{msg + "#1==nil true", "msgs[].Reliable false"}, want: []string{pub, drop}},
		passCase{when: with(req + "#1==nil false"), want: []string{req, more}},
		passCase{when: with(req+"#1==nil true", ack+" false"), want: []string{req, more}},
		passCase{when: with(req+"#1==nil true", ack+" true", "*&JSPubAckResponse.Error==nil false"), want: []string{req, more}},
		passCase{when: with(req+"#1==nil true", ack+" true", "*&JSPubAckResponse.Error==nil true"), want: []string{req, drop}},
	)
	oneByOne(p, r, "publish", h)
	// a reliable message is not published after one before it failed
	n := 0
	for _, b := range h.Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || mname(c.Common()) != "IncrementTries" {
				continue
			}
			n++
			t := *t
			t.ends = nil
			late := ""
			for _, x := range t.from(b, nil, i+1, e, "") {
				for _, d := range notes(x.effects) {
					if strings.HasPrefix(d, "s.conn.RequestRawMsg") {
						late = d
					}
				}
			}
			r.at("publish", c, "reliable messages after one that failed are kept for later", late == "", "can do "+late)
		}
	}
	r.need("publish", "counts tries", n, 1)
}

// oneByOne: the loops of a function visit everything.
func oneByOne(p *Prog, r *Report, rule string, f *ssa.Function) {
	n := 0
	for _, l := range loopsOf(f) {
		n++
		r.ob(rule, fmt.Sprintf("%s: loop %d does not stop before the last one", fname(f), n), l.full && l.leftEarly() == nil, p.pos(f.Pos()), "the loop can be left early, or does not visit all")
	}
	r.need(rule, fname(f)+": loops", n, 1)
}

// spoolMessage: what is published says what was submitted, and what may not be is not.
func spoolMessage(p *Prog, r *Report) {
	if f := r.anchor("valid", "(*"+subPkg+".Message).Validate"); f != nil {
		t := &interp{p: p, terms: true, conds: true, once: true, inline: inPackage(subPkg), record: func(n string) bool { return false }}
		good := []string{
			"empty(m.Subject) false", "empty(m.Payload) false", "4<m.Priority false", "m.Created.IsZero() false", "m.TTL==0 false",
			"2678400000000000.Seconds()<m.TTL false", "empty(m.Sender) false", "int((m.TTL*1000000000))<Since(m.Created) false",
			"HasPrefix(ToLower(m.Headers[key]) choria) false", "HasPrefix(ToLower(m.Headers[key]) nats) false",
		}
		cases := []passCase{{when: good, want: []string{"succeed"}}}
		for _, g := range good {
			cases = append(cases, passCase{when: []string{strings.TrimSuffix(g, "false") + "true"}, want: []string{"fail"}})
		}
		r.perPass("valid", t, f, paramTerms(f, "m"), "what may not be published", cases...)
	}
	if f := r.anchor("message", "(*"+subPkg+".Message).NatsMessage"); f != nil {
		t := &interp{p: p, terms: true, conds: true, once: true, inline: func(g *ssa.Function) bool { return inPackage(subPkg)(g) && g.Name() != "Validate" },
			record: func(n string) bool {
				return nameIn(n, "Add", "Set", "Del", "set nats.Msg.Data", "set nats.Msg.Subject")
			}}
		const (
			add   = "NewMsg(prefixm.Subject).Header.Add("
			valid = "m.Validate()==nil "
			tries = "m.Tries<m.MaxTries "
			sig   = "Ed25519SignWithSeedFile(seed m.Payload)"
		)
		adds := func(d string) bool { return strings.HasPrefix(d, add) || d == "set nats.Msg.Data=m.Payload" }
		cases := []passCase{{when: []string{valid + "false"}, want: []string{"fail"}}, {when: []string{tries + "false"}, want: []string{"fail"}}}
		for _, bad := range []string{"empty(seed) true", "FileExist(seed) false", sig + "#1==nil false"} {
			cases = append(cases, passCase{when: []string{"m.Sign true", bad}, want: []string{"fail"}, also: adds})
		}
		cases = append(cases, passCase{when: []string{"m.Sign true", "empty(token) false", "FileExist(token) true", "ReadFile(token)#1==nil false"}, want: []string{"fail"}, also: adds})
		for n := range 32 {
			c := passCase{when: []string{valid + "true", tries + "true"}, want: []string{"succeed", "set nats.Msg.Data=m.Payload", add + "m.Headers[key] m.Headers[])",
				add + "Nats-Msg-Id m.ID)", add + "Choria-Priority Itoa(m.Priority))", add + "Choria-Created Itoa(m.Created.UnixNano()))", add + "Choria-Sender m.Sender)"}}
			opt := func(bit int, cond, yes, no string, eff ...string) {
				if n&(1<<bit) != 0 {
					c.when = append(c.when, cond+" "+yes)
					c.want = append(c.want, eff...)
				} else {
					c.when = append(c.when, cond+" "+no)
				}
			}
			opt(0, "m.Reliable", "true", "false", add+"Choria-Reliable 1)")
			opt(1, "0<m.Tries", "true", "false", add+"Choria-Tries Itoa(m.Tries))")
			opt(2, "empty(m.Identity)", "false", "true", add+"Choria-Identity m.Identity)")
			opt(3, "m.Sign", "true", "false", add+"Choria-Signature EncodeToString("+sig+"))")
			if n&8 != 0 {
				c.when = append(c.when, "empty(seed) false", "FileExist(seed) true", sig+"#1==nil true")
				if n&16 == 0 {
					c.when = append(c.when, "FileExist(token) false")
				} else {
					c.when = append(c.when, "empty(token) false", "FileExist(token) true", "ReadFile(token)#1==nil true")
					c.want = append(c.want, add+"Choria-Token ReadFile(token))")
				}
			} else if n&16 != 0 {
				continue
			}
			cases = append(cases, c)
		}
		r.perPass("message", t, f, paramTerms(f, "m", "prefix", "seed", "token"), "says what was submitted", cases...)
	}
}

// spoolStore: what is in the spool stays there until it was dealt with, and what is written to it is either there or not.
func spoolStore(p *Prog, r *Report) {
	own := func(skip ...string) func(g *ssa.Function) bool {
		return func(g *ssa.Function) bool {
			return inPackage(subPkg)(g) && g.Parent() == nil && !nameIn(g.Name(), skip...)
		}
	}
	typ := "(*" + subPkg + ".DirectorySpool)."
	if f := r.anchor("store", typ+"writeMessage"); f != nil {
		const (
			tmp = "CreateTemp(d.directory )"
			nm  = tmp + ".Name()"
			wr  = "WriteFile(" + nm + " j 384)"
			mv  = "Rename(" + nm + " path)"
		)
		t := &interp{p: p, terms: true, conds: true, inline: own(), record: func(n string) bool {
			return nameIn(n, "WriteFile", "Rename", "Create", "OpenFile", "Write", "WriteString")
		}}
		r.perPass("store", t, f, paramTerms(f, "d", "path", "j"), "a message appears in the spool all at once",
			passCase{when: []string{tmp + "#1==nil false"}, want: []string{"fail"}},
			passCase{when: []string{tmp + "#1==nil true", wr + "==nil false"}, want: []string{wr, "fail"}},
			passCase{when: []string{tmp + "#1==nil true", wr + "==nil true"}, want: []string{wr, mv, "return " + mv}})
	}
	if f := r.anchor("store", typ+"Submit"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: own("writeMessage", "countEntries", "Validate"), record: func(n string) bool { return n == "writeMessage" }}
		const (
			full = "d.spoolMax<d.countEntries(msg.Priority)"
			wr   = "d.writeMessage(Join(d.directory Pmsg.Priority Now().UnixNano()-UniqueID().msg) Marshal(msg))"
		)
		r.perPass("store", t, f, paramTerms(f, "d", "msg"), "what is submitted is valid and written where messages of its priority are read",
			passCase{when: []string{"msg.Validate()==nil false"}, want: []string{"fail"}},
			passCase{when: []string{"msg.Validate()==nil true", full + " true"}, want: []string{"fail"}},
			passCase{when: []string{"msg.Validate()==nil true", full + " false", "Marshal(msg)#1==nil false"}, want: []string{"fail"}},
			passCase{when: []string{"msg.Validate()==nil true", full + " false", "Marshal(msg)#1==nil true"}, want: []string{wr, "return " + wr}},
		)
	}
	discard := func(path, skip string, when []string, eff ...string) []passCase {
		rm := "Remove(" + path + ")"
		with := func(s []string, more ...string) []string { return append(append([]string{}, s...), more...) }
		return []passCase{
			{when: with(when, "empty("+path+") true"), want: eff},
			{when: with(when, "empty("+path+") false", rm+"==nil true"), want: with(eff, rm)},
			{when: with(when, "empty("+path+") false", rm+"==nil false"), want: with(eff, rm, "put("+skip+" "+path+")")},
		}
	}
	const dir = "m.st==1 "
	if f := r.anchor("store", typ+"IncrementTries"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: own("writeMessage"), record: func(n string) bool {
			return nameIn(n, "writeMessage", "Remove", "put", "set submission.Message.Tries", "set submission.Message.NextTry")
		}}
		const (
			next = "Now().Add(d.bo.Duration((m.Tries+1)))"
			one  = "set submission.Message.Tries=(m.Tries+1)"
			two  = "set submission.Message.NextTry=" + next
			more = "(m.Tries+1)<m.MaxTries "
			js   = "Marshal(m{NextTry=" + next + " Tries=(m.Tries+1)})"
			wr   = "d.writeMessage(m.sm " + js + ")"
		)
		cases := []passCase{{when: []string{dir + "false"}, want: []string{"fail"}},
			{when: []string{dir + "true", more + "true", js + "#1==nil false"}, want: []string{one, two, "fail"}},
			{when: []string{dir + "true", more + "true", js + "#1==nil true", wr + "==nil true"}, want: []string{one, two, wr, "succeed"}}}
		cases = append(cases, discard("m.sm", "d.skipList[m.Priority]", []string{dir + "true", more + "false"}, one, two, "succeed")...)
		cases = append(cases, discard("m.sm", "d.skipList[m.Priority]", []string{dir + "true", more + "true", js + "#1==nil true", wr + "==nil false"}, one, two, wr, "succeed")...)
		r.perPass("store", t, f, paramTerms(f, "d", "m"), "a failed attempt is counted and the message tried again later, until its tries are used up", cases...)
	}
	for _, n := range []string{"Discard", "Complete"} {
		if f := r.anchor("store", typ+n); f != nil {
			t := &interp{p: p, terms: true, conds: true, inline: own(), record: func(n string) bool { return nameIn(n, "Remove", "put") }}
			cases := append(discard("m.sm", "d.skipList[m.Priority]", []string{dir + "true"}, "succeed"), passCase{when: []string{dir + "false"}, want: []string{"fail"}})
			r.perPass("store", t, f, paramTerms(f, "d", "m"), "what was dealt with is removed, or not handled again", cases...)
		}
	}
	if f := r.anchor("store", typ+"compactSkipList"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: own(), record: func(n string) bool { return nameIn(n, "append", "delete") }}
		t.once, t.single = true, true
		const known = "has(known[skipList[key]]) "
		r.perPass("store", t, f, paramTerms(f, "d", "skipList", "known"), "files that are still there are still skipped",
			passCase{when: []string{known + "true"}, also: func(d string) bool { return !strings.Contains(d, "skipList[key]") }},
			passCase{when: []string{known + "false"}, also: func(d string) bool { return true }})
	}
	if f := r.anchor("store", typ+"processDir"); f != nil {
		const (
			path = "Join(dir d.entries(priority)[].Name())"
			msg  = "d.readMessage(" + path + ")"
			skip = "has(d.skipList[priority][" + path + "]) "
			read = msg + "#1==nil "
			left = msg + ".Tries<" + msg + ".MaxTries "
			now  = "0<" + msg + ".Tries "
			wait = "Now().Before(" + msg + ".NextTry) "
			any  = "d.entries(priority)#1==nil "
			add  = "append(" + msg + ")"
			know = "put([] " + path + ")"
		)
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: own("readMessage", "entries"), record: func(n string) bool {
			return nameIn(n, "Remove", "handler", "append", "put")
		}}
		good := []string{any + "true", skip + "false", read + "true", left + "true"}
		with := func(more ...string) []string { return append(append([]string{}, good...), more...) }
		cases := []passCase{
			{when: []string{any + "true", skip + "true"}, want: []string{know, "Remove(" + path + ")"}},
			{when: with(now+"true", wait+"true"), want: []string{know}},
			{when: with(now + "false"), want: []string{know, add}},
			{when: with(now+"true", wait+"false"), want: []string{know, add}},
		}
		cases = append(cases, discard(path, "d.skipList[priority]", []string{any + "true", skip + "false", read + "false"}, know)...)
		cases = append(cases, discard(path, "d.skipList[priority]", []string{any + "true", skip + "false", read + "true", left + "false"}, know)...)
		names := paramTerms(f, "d", "priority", "dir", "handler")
		r.perPass("store", t, f, names, "each message", cases...)
		oneByOne(p, r, "store", f)
		all := *t
		all.ends, all.once, all.single = nil, true, true
		all.inline = own("readMessage", "entries", "removeCompletedWithSkip", "compactSkipList")
		all.record = func(n string) bool { return n == "handler" }
		h := "handler([" + msg + "])"
		r.perPass("store", &all, f, names, "those to handle are handled",
			passCase{when: []string{any + "false"}, want: []string{"return d.entries(priority)#1"}},
			passCase{when: with(now + "false"), want: []string{h, "return " + h}},
			passCase{when: []string{any + "true", skip + "true"}, want: []string{"succeed"}},
			passCase{when: with(now+"true", wait+"true"), want: []string{"succeed"}},
			passCase{when: with(now+"true", wait+"false"), want: []string{h, "return " + h}},
			passCase{when: []string{any + "true", skip + "false", read + "true", left + "false"}, want: []string{"succeed"}},
			passCase{when: []string{any + "true", read + "false"}, want: []string{"succeed"}},
		)
	}
}

// spoolWorkers: every priority that messages can have is worked on, for as long as the server runs.
func spoolWorkers(p *Prog, r *Report) {
	const rule = "work"
	all := func(skip ...string) func(g *ssa.Function) bool {
		return func(g *ssa.Function) bool {
			return inPackage(subPkg)(g) && g.Parent() == nil && !nameIn(g.Name(), skip...)
		}
	}
	typ := "(*" + subPkg + ".DirectorySpool)."
	if f := r.anchor(rule, typ+"worker"); f != nil {
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: all("processDir"), record: func(n string) bool { return n == "processDir" }}
		r.perPass(rule, t, f, paramTerms(f, "d", "ctx", "wg", "priority", "handler", "ready"), "what is in the spool is looked at on every tick",
			passCase{when: []string{"ready(NewTicker(d.pollInterval).C) true"}, want: []string{"d.processDir(priority Join(d.directory Ppriority) handler)"}})
	}
	// the priorities there are
	prios := 0
	if f := r.anchor(rule, "(*"+subPkg+".Message).Validate"); f != nil {
		for n := range 16 {
			t := &interp{p: p, terms: true, inline: all(), record: func(n string) bool { return false }}
			e := paramTerms(f, "m")
			e[cellOf("m.Priority")] = constant.MakeInt64(int64(n))
			for _, x := range t.run(f, e) {
				if len(x.vals) == 1 && sameConst(x.vals[0], isNil) {
					prios = max(prios, n+1)
				}
			}
		}
	}
	r.ob(rule, "the priorities of messages", prios > 0 && prios < 16, "", fmt.Sprintf("are up to %d", prios-1))
	if f := r.anchor(rule, typ+"StartPoll"); f != nil {
		t := &interp{p: p, terms: true, conds: true, counts: true, inline: all("worker"), record: func(n string) bool { return n == "go" }}
		want := []string{"succeed"}
		for n := range prios {
			want = append(want, fmt.Sprintf("go d.worker(WithCancel(ctx) wg %d handler &chan)", n))
		}
		r.perPass(rule, t, f, paramTerms(f, "d", "ctx", "wg", "handler"), "every priority has its worker",
			passCase{when: []string{"d.started true"}, want: []string{"fail"}},
			passCase{when: []string{"d.started false"}, want: want})
	}
	if f := r.anchor(rule, typ+"createSpool"); f != nil {
		t := &interp{p: p, terms: true, conds: true, counts: true, inline: all(), record: func(n string) bool { return n == "MkdirAll" }}
		good, made := []string{}, []string{}
		var cases []passCase
		for n := range prios {
			mk := fmt.Sprintf("MkdirAll(Join(d.directory P%d) 448)", n)
			cases = append(cases, passCase{when: append(append([]string{}, good...), mk+"==nil false"), want: append([]string{mk, "fail"}, made...)})
			good, made = append(good, mk+"==nil true"), append(made, mk)
		}
		cases = append(cases, passCase{when: good, want: append(made, "succeed")})
		r.perPass(rule, t, f, paramTerms(f, "d"), "every priority has its directory", cases...)
	}
	if f := r.anchor(rule, typ+"entries"); f != nil {
		const dir = "ReadDir(Join(d.directory Ppriority))"
		const name, info, any = "HasSuffix(" + dir + "[].Name() .msg) ", dir + "[].Info()", dir + "#1==nil "
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: all(), record: func(n string) bool { return n == "append" }}
		r.perPass(rule, t, f, paramTerms(f, "d", "priority"), "messages of a priority are found",
			passCase{when: []string{any + "true", name + "false"}},
			passCase{when: []string{any + "true", name + "true", info + "#1==nil false"}},
			passCase{when: []string{any + "true", name + "true", info + "#1==nil true"}, want: []string{"append(" + info + ")"}})
		t.ends, t.once, t.single = nil, true, true
		t.record = func(n string) bool { return false }
		for _, ok := range []string{"true", "false"} {
			n := 0
			for _, x := range t.run(f, paramTerms(f, "d", "priority")) {
				have := map[string]bool{}
				for _, d := range notes(x.effects) {
					have[d] = true
				}
				if possible(have, []string{any + ok, name + "true", info + "#1==nil true"}) && len(x.vals) == 2 && sameConst(x.vals[1], isNil) && showTerm(x.vals[0]) == "["+info+"]" {
					n++
				}
			}
			r.ob(rule, fname(f)+": gives what was found: "+ok, (n > 0) == (ok == "true"), p.pos(f.Pos()), fmt.Sprintf("%d paths do", n))
		}
	}
	if f := r.anchor(rule, typ+"NewMessage"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: all(), record: func(n string) bool { return strings.HasPrefix(n, "set submission.Message.") }}
		var want []string
		for _, s := range []string{"Created=Now()", "ID=UniqueID()", "Identity=d.identity", "MaxTries=500", "Sender=d.identity", "TTL=604800000000000.Seconds()", "st=1"} {
			want = append(want, "set submission.Message."+s)
		}
		r.perPass(rule, t, f, paramTerms(f, "d"), "a new message can be published", passCase{want: want})
	}
	if f := r.anchor(rule, subPkg+".NewDirectorySpool"); f != nil {
		t := &interp{p: p, terms: true, conds: true, record: func(n string) bool { return strings.HasPrefix(n, "set submission.DirectorySpool.") }}
		set := func(s string) string { return "set submission.DirectorySpool." + s }
		const mk = "&DirectorySpool.createSpool()==nil "
		good := []string{"empty(dir) false", "maxSize<1 false"}
		isSet := func(d string) bool { return strings.HasPrefix(d, "set ") }
		r.perPass(rule, t, f, paramTerms(f, "dir", "maxSize", "identity", "log"), "the spool is in the directory that is configured",
			passCase{when: []string{"empty(dir) true"}, want: []string{"fail"}},
			passCase{when: []string{"maxSize<1 true"}, want: []string{"fail"}},
			passCase{when: append(good, mk+"false"), want: []string{"fail"}, also: isSet},
			passCase{when: append(good, mk+"true"), want: []string{set("directory=dir"), set("spoolMax=maxSize"), set("identity=identity"), set("pollInterval=1000000000"), set("skipList=[]"), "succeed"}, also: isSet})
	}
	if f := r.anchor(rule, subPkg+".NewFromChoria"); f != nil {
		t := &interp{p: p, terms: true, conds: true, record: func(n string) bool { return n == "New" }}
		const c = "fw.Configuration()."
		r.perPass(rule, t, f, paramTerms(f, "fw", "store"), "the spool is the one that is configured", passCase{want: []string{
			"New(" + c + "MainCollective " + c + "Identity store fw.Logger(submission) WithSpoolDirectory(" + c + "Choria.SubmissionSpool) WithMaxSpoolEntries(" + c + "Choria.SubmissionSpoolMaxSize) WithSeedFile(fw.SignerSeedFile()) WithTokenFile(fw.SignerTokenFile()))"},
			also: func(d string) bool { return d == "succeed" || d == "fail" || strings.HasPrefix(d, "return New(") }})
	}
	for _, o := range [][2]string{{"WithSpoolDirectory", "spoolDir"}, {"WithMaxSpoolEntries", "maxSize"}, {"WithSeedFile", "seedFile"}, {"WithTokenFile", "tokenFile"}} {
		f := r.anchor(rule, subPkg+"."+o[0])
		if f == nil {
			continue
		}
		t := &interp{p: p, terms: true, conds: true, record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
		for _, g := range f.AnonFuncs {
			e := paramTerms(g, "o")
			for _, fv := range g.FreeVars {
				e[fv] = mkTerm("v")
			}
			r.perPass(rule, t, g, e, "sets "+o[1], passCase{want: []string{"set submission.spoolOpts." + o[1] + "=v"}})
		}
		r.need(rule, o[0], len(f.AnonFuncs), 1)
	}
	if f := r.anchor(rule, subPkg+".New"); f != nil {
		const dir = "NewDirectorySpool(*&spoolOpts.spoolDir *&spoolOpts.maxSize identity log.WithField(component submission))"
		isSet := func(d string) bool { return strings.HasPrefix(d, "set ") }
		t := &interp{p: p, terms: true, conds: true, once: true, single: true, record: func(n string) bool {
			return n == "opts[]" || n == "NewDirectorySpool" || strings.HasPrefix(n, "set submission.Spool.")
		}}
		r.perPass(rule, t, f, paramTerms(f, "collective", "identity", "store", "log", "opts"), "what is configured is used",
			passCase{when: []string{"empty(collective) true"}, want: []string{"fail"}},
			passCase{when: []string{"empty(identity) true"}, want: []string{"fail"}},
			passCase{when: []string{"empty(collective) false", "empty(identity) false", "store==1 false"}, want: []string{"opts[](&spoolOpts)", "fail"}, also: isSet},
			passCase{when: []string{"empty(collective) false", "empty(identity) false", "store==1 true", dir + "#1==nil false"}, want: []string{"opts[](&spoolOpts)", dir, "fail"}, also: isSet},
			passCase{when: []string{"empty(collective) false", "empty(identity) false", "store==1 true", dir + "#1==nil true"}, want: []string{"opts[](&spoolOpts)", dir,
				"set submission.Spool.opts=&spoolOpts", "set submission.Spool.prefix=collective.submission.in.", "set submission.Spool.store=" + dir, "succeed"}, also: isSet})
	}
	if f := r.anchor(rule, "(*server.Instance).SetupSubmissions"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: inPackage("server"), record: func(n string) bool { return n == "go" }}
		const none, made = "empty(srv.cfg.Choria.SubmissionSpool) ", "NewFromChoria(srv.fw 1)"
		r.perPass(rule, t, f, paramTerms(f, "srv", "ctx", "wg"), "servers with a spool publish what is in it",
			passCase{when: []string{none + "true"}, want: []string{"succeed"}},
			passCase{when: []string{none + "false", made + "#1==nil false"}, want: []string{"fail"}},
			passCase{when: []string{none + "false", made + "#1==nil true"}, want: []string{"go " + made + ".Run(ctx wg srv.connector)", "succeed"}})
	}
	if f := r.anchor(rule, "(*server.Instance).Run"); f != nil {
		cs := callsWithin(f, "(*server.Instance).SetupSubmissions")
		r.ob(rule, "servers start to publish what is in their spool", len(cs) > 0, p.pos(f.Pos()), fmt.Sprintf("%d calls", len(cs)))
	}
}

// handlerOf: the literal a function passes on.
func handlerOf(f *ssa.Function) *ssa.Function {
	var found *ssa.Function
	calls(f, func(c ssa.CallInstruction) {
		if mname(c.Common()) == "StartPoll" {
			for _, a := range c.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					found = mc.Fn.(*ssa.Function)
				}
			}
		}
	})
	return found
}
