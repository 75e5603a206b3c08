package main

import (
	"fmt"
	"go/constant"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data adapters: what arrives on the topic is put in the stream.

func init() {
	register(&Check{ID: "D01", Level: "other",
		Rule:        "one pass of each adapter worker passes on what it took, in the protocol asked for, exactly when it can be parsed and encoded; what is published has the payload, sender, time and request id of the message, and workers are connected to each other, their topic and their stream",
		Explanation: "Every path through one pass of the ingest and publishing workers is explored with values named by where they come from; what is queued and published, and the conditions on the way there, are compared with what has to be. The construction, connection and starting of workers are compared in the same way.",
		Run:         adapters})
}

const (
	adIngest = "broker/adapter/ingest"
	adStream = "broker/adapter/streams"
)

func adapters(p *Prog, r *Report) {
	inline := func(g *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(g), modPath+"/broker/adapter") }
	stages := func(g *ssa.Function) bool {
		return inline(g) && (g.Parent() != nil || !nameIn(g.Name(), "Receiver", "publisher", "Connect", "connect"))
	}
	rec := func(names ...string) func(string) bool {
		return func(n string) bool { return nameIn(n, names...) }
	}

	// what arrives is queued
	if f := r.anchor("ingest", "(*"+adIngest+".NatsIngest).Receiver"); f != nil {
		for proto, made := range map[string]string{"choria:request": "NewRequestFromTransportJSON", "choria:reply": "NewReplyFromTransportJSON"} {
			t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: inline, record: func(n string) bool { return n == "send" || strings.HasPrefix(n, "set "+adIngest+".NatsIngest.") }}
			e := paramTerms(f, "self", "ctx", "wg")
			e[cellOf("self.proto")] = constant.MakeString(proto)
			got := "self.fw." + made + "(<-self.input.Data() true)"
			r.passesOn("ingest", t, f, e, "queues what arrives, protocol "+proto, "send(self.work "+got+")", got+"#1==nil true", "ready(self.work) true")
		}
	}

	// what is queued is published
	if f := r.anchor("publish", "(*"+adStream+".stream).publisher"); f != nil {
		t := &interp{p: p, terms: true, conds: true, ends: backEdge, inline: inline, record: func(n string) bool { return n == "PublishRaw" || strings.HasPrefix(n, "set "+adStream+".stream.") }}
		const m = "<-self.work"
		data := "Marshal(&Msg{Data=" + m + ".Message() Protocol=choria:adapters:choria_streams:output:1 RequestID=" + m + ".RequestID() Sender=" + m + ".SenderID() Time=" + m + ".Time().UTC()})"
		r.passesOn("publish", t, f, paramTerms(f, "self", "ctx", "wg"), "publishes what is queued", "self.conn.PublishRaw(ReplaceAll(self.topic %s "+m+".SenderID()) "+data+")", data+"#1==nil true")
	}

	// which topics and streams are connected
	if f := r.anchor("connect", "(*"+adIngest+".NatsIngest).Connect"); f != nil {
		set := adIngest + ".NatsIngest.input"
		t := &interp{p: p, terms: true, strict: true, inline: inline, record: rec("set " + set)}
		t.call = gives(map[string]constant.Value{".NewConnector": mkTerm("nc")})
		r.does("connect", t, f, paramTerms(f, "self", "ctx", "cm"), "subscribes to its topic", []string{"set " + set + "=nc.ChanQueueSubscribe(self.name self.topic self.group 1000)"})
	}
	if f := r.anchor("connect", "(*"+adStream+".stream).connect"); f != nil {
		set := adStream + ".stream.conn"
		t := &interp{p: p, terms: true, strict: true, inline: inline, record: rec("set " + set)}
		r.does("connect", t, f, paramTerms(f, "self", "ctx", "cm"), "connects to its servers", []string{"set " + set + "=fw.NewConnector(ctx self.servers self.clientID self.log)"})
	}

	// all workers are connected and run
	if f := r.anchor("start", "(*"+adStream+".Streams).Init"); f != nil {
		t := &interp{p: p, terms: true, once: true, strict: true, inline: stages, record: rec("connect", "Connect")}
		r.does("start", t, f, paramTerms(f, "self", "ctx", "cm"), "connects all workers", []string{"self.streams[].connect(ctx cm)", "self.ingests[].Connect(ctx cm)"})
		eachWorker(p, r, f, "connect", "Connect")
	}
	if f := r.anchor("start", "(*"+adStream+".Streams).Process"); f != nil {
		t := &interp{p: p, terms: true, once: true, inline: stages, record: rec("go")}
		r.does("start", t, f, paramTerms(f, "self", "ctx", "wg"), "runs all workers", []string{"go self.streams[].publisher(ctx wg)", "go self.ingests[].Receiver(ctx wg)"})
		eachWorker(p, r, f, "publisher", "Receiver")
	}
	if f := r.anchor("start", "broker/adapter.startAdapter"); f != nil {
		t := &interp{p: p, terms: true, strict: true, inline: func(g *ssa.Function) bool { return inline(g) && !nameIn(g.Name(), "Init", "Process") }, record: rec("Init", "go"), first: map[string]string{"go ": "a.Init("}}
		r.does("start", t, f, paramTerms(f, "ctx", "a", "c", "wg"), "initializes, then runs, an adapter", []string{"a.Init(ctx c)", "go a.Process(ctx wg)"})
	}

	// both sides of an adapter have the same queue, and the topics they are configured with
	own := func(g *ssa.Function) bool { return inline(g) && !nameIn(g.Name(), "New", "newStream") }
	logs := gives(map[string]constant.Value{".WithFields": mkTerm("log"), ".Logger": mkTerm("log"), ".WithField": mkTerm("log")})
	sets := func(typ string, fields ...string) (func(string) bool, func(f, v string) string) {
		return func(n string) bool {
				for _, f := range fields {
					if n == "set "+typ+"."+f {
						return true
					}
				}
				return false
			}, func(f, v string) string {
				return "set " + typ + "." + f + "=" + v
			}
	}
	if f := r.anchor("made", adStream+".Create"); f != nil {
		is, eff := sets(adStream+".Streams", "ingests", "streams", "work")
		t := &interp{p: p, terms: true, strict: true, inline: own, record: is, call: logs, skip: map[string]bool{"ingests": true, "log": true, "work": true}}
		r.does("made", t, f, paramTerms(f, "name", "choria"), "makes both sides", []string{eff("work", "&chan"), eff("ingests", "New(name &chan choria log)"), eff("streams", "newStream(name &chan log)")})
		made := map[string]bool{}
		for _, x := range t.run(f, paramTerms(f, "name", "choria")) {
			for _, m := range regexp.MustCompile(`&chan@[\w$]+`).FindAllString(x.effects, -1) {
				made[m] = true
			}
		}
		r.ob("made", fname(f)+": both sides have the same queue", len(made) == 1, p.pos(f.Pos()), fmt.Sprintf("there are %d queues", len(made)))
	}
	if f := r.anchor("made", adIngest+".New"); f != nil {
		is, eff := sets(adIngest+".NatsIngest", "topic", "work", "group", "proto", "fw")
		const opt = "fw.Configuration().Option(plugin.choria.adapter.name.ingest."
		t := &interp{p: p, terms: true, once: true, strict: true, inline: own, record: is, call: logs, conds: true}
		adapterMade(p, r, t, f, paramTerms(f, "name", "work", "fw", "log"), map[string][]string{
			"request==" + opt + "protocol reply) true":  {eff("proto", "choria:request")},
			"request==" + opt + "protocol reply) false": {eff("proto", "choria:reply")},
		}, eff("topic", opt+"topic )"), eff("work", "work"), eff("fw", "fw"), eff("group", "nats_ingest_name"))
	}
	if f := r.anchor("made", adStream+".newStream"); f != nil {
		is, eff := sets(adStream+".stream", "topic", "work", "servers")
		const opt = "cfg.Option(plugin.choria.adapter.name.stream."
		t := &interp{p: p, terms: true, once: true, strict: true, inline: own, record: is, call: logs, conds: true}
		adapterMade(p, r, t, f, paramTerms(f, "name", "work", "log"), map[string][]string{
			"empty(" + opt + "topic )) true":    {eff("topic", "name")},
			"empty(" + opt + "topic )) false":   {eff("topic", opt+"topic )")},
			"empty(" + opt + "servers )) true":  {eff("servers", "MiddlewareServers")},
			"empty(" + opt + "servers )) false": {eff("servers", "resolver$1")},
		}, eff("work", "work"))
	}
}

// adapterMade: what is set, always or when a condition holds, on paths that make something.
func adapterMade(p *Prog, r *Report, t *interp, f *ssa.Function, e ienv, when map[string][]string, always ...string) {
	ok, det := true, "sets what it is configured with"
	fails := func(d string) {
		if ok {
			ok, det = false, d
		}
	}
	n := 0
	for _, x := range t.run(f, e) {
		if x.ret == nil || sameConst(x.vals[len(x.vals)-1], isSet) || strings.Contains(x.effects, "!err") {
			continue
		}
		if os.Getenv("VERIF_TERMS") != "" && n < 3 {
			fmt.Println(strings.Join(notes(x.effects), "\n   "))
		}
		n++
		may := map[string]bool{}
		for _, w := range always {
			w = strings.ReplaceAll(w, ",", ";")
			may[w] = true
			if !x.did(w) {
				fails("can return at " + p.ipos(x.ret) + " without " + w)
			}
		}
		for _, c := range sortedKeys(when) {
			for _, w := range when[c] {
				if x.did("if " + c) {
					may[w] = true
					if !x.did(w) {
						fails("does not " + w + " when " + c)
					}
				}
			}
		}
		for _, d := range notes(x.effects) {
			if !strings.HasPrefix(d, "if ") && !may[d] {
				fails("can " + d)
			}
		}
	}
	if n == 0 {
		fails("always fails")
	}
	r.seen(f)
	r.ob("made", fname(f)+": sets what it is configured with", ok, p.pos(f.Pos()), det)
}

// eachWorker: the loops in which these are called have no way out but their end, and an error.
func eachWorker(p *Prog, r *Report, f *ssa.Function, names ...string) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok || !nameIn(mname(c.Common()), names...) {
				continue
			}
			every := false
			for _, l := range loopsOf(f) {
				if !l.body[b] || !l.full {
					continue
				}
				every = true
				for _, q := range l.head.Preds {
					every = every && (!l.body[q] || b.Dominates(q))
				}
			}
			r.at("start", c, "done for every worker", every, "a worker can be left out")
		}
	}
}
