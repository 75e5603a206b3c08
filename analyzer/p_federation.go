package main

import (
	"fmt"
	"go/constant"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Federation: requests of one side go to their targets on the other, and replies back to who asked.

func init() {
	register(&Check{ID: "F01", Level: "other",
		Rule:        "one pass of each federation worker passes on what it took, changed as its stage calls for, exactly when it is federated and has somewhere to go; stages share channels, are all run, and connect to their own network",
		Explanation: "Every path through one pass of each worker is explored with values named by where they come from; what is sent or published, and the conditions on the way there, are compared with what the stage has to do, for both networks. The loop over targets must have no way out but its end. The links made by Start, and the goroutines it starts, are compared with the two chains there have to be.",
		Run:         federation})
}

const fedPkg = "broker/federation"

func federation(p *Prog, r *Report) {
	const in = "<-self.in"
	m := in + ".Message"
	side := map[string]string{"Federation": "federation", "Collective": "collective"}
	fedWorker(p, r, "request", "NewChoriaRequestTransformer", "",
		"send(self.out <-self.in{Message.FederationReplyTo="+m+".ReplyTo() Message.FederationTargets=[] Message.ReplyTo=choria.federation.self.broker.Name.collective RequestID="+m+".FederationRequestID() Targets="+m+".FederationTargets()})",
		m+".FederationRequestID()#1 true", "empty("+m+".FederationTargets()) false", "empty("+m+".ReplyTo()) false")
	fedWorker(p, r, "reply", "NewChoriaReplyTransformer", "",
		"send(self.out <-self.in{Message.Unfederated=set() RequestID="+m+".FederationRequestID() Targets=["+m+".FederationReplyTo()]})",
		m+".FederationRequestID()#1 true", "empty("+m+".FederationReplyTo()) false")
	for _, mode := range sortedKeys(side) {
		got := "self.choria.NewTransportFromJSON(<-nc.ChanQueueSubscribe(ingest choria.federation.self.broker.Name." + side[mode] + " self.broker.Name_" + side[mode] + " 64).Data())"
		fedWorker(p, r, "ingest", "NewChoriaNatsIngest", mode,
			"send(self.out &chainmessage{Message="+got+" RequestID="+got+".FederationRequestID()})",
			got+"#1==nil true", got+".FederationRequestID()#1 true")
		fedWorker(p, r, "egest", "NewChoriaNatsEgest", mode,
			"nc.PublishRaw("+in+".Targets[] "+m+".JSON())",
			"empty("+in+".Targets) false", m+".JSON()#1==nil true")
	}
	fedTargets(p, r)
	fedServers(p, r)
	fedLinks(p, r)
	fedStart(p, r)
}

// workerOf: the function a constructor of workers has them run.
func workerOf(p *Prog, f *ssa.Function) *ssa.Function {
	var found *ssa.Function
	calls(f, func(c ssa.CallInstruction) {
		if mname(c.Common()) != "PooledWorkerFactory" {
			return
		}
		for _, a := range c.Common().Args {
			switch x := a.(type) {
			case *ssa.MakeClosure:
				found = x.Fn.(*ssa.Function)
			case *ssa.Function:
				found = x
			}
		}
	})
	return found
}

func fedWorker(p *Prog, r *Report, rule, ctor, mode, want string, conds ...string) {
	f := r.anchor(rule, fedPkg+"."+ctor)
	if f == nil {
		return
	}
	w := workerOf(p, f)
	if w == nil {
		r.ob(rule, ctor+": runs workers", false, p.pos(f.Pos()), "no worker is found")
		return
	}
	t := &interp{p: p, terms: true, conds: true, once: true, ends: backEdge, inline: inPackage(fedPkg),
		skip: map[string]bool{"Seen": true},
		record: func(n string) bool {
			return nameIn(n, "send", "PublishRaw") || strings.HasPrefix(n, "set "+fedPkg+".pooledWorker.")
		},
		call: func(c ssa.CallInstruction) (string, map[int]constant.Value) {
			switch mname(c.Common()) {
			case "NewConnector":
				return "", map[int]constant.Value{0: mkTerm("nc"), 1: isNil}
			}
			return "", nil
		}}
	e := paramTerms(w, "ctx", "self", "i", "log")
	what := "passes on what comes in"
	if mode != "" {
		e[cellOf("self.mode")] = p.pkgConst(fedPkg, mode)
		for _, fv := range w.FreeVars {
			if fv.Name() == "mode" {
				e[fv] = p.pkgConst(fedPkg, mode)
			}
		}
		what += ", mode " + mode
	}
	r.passesOn(rule, t, w, e, what, want, conds...)
}

// fedTargets: a message is published to all its targets, also when one could not be published to.
func fedTargets(p *Prog, r *Report) {
	n := 0
	for _, f := range p.inPkg(fedPkg) {
		for _, c := range callsOf(f) {
			if mname(c.Common()) != "PublishRaw" {
				continue
			}
			n++
			ok := false
			for _, l := range loopsOf(f) {
				every := l.full && l.body[c.Block()]
				for b := range l.body {
					for _, sc := range b.Succs {
						every = every && (b == l.head || l.body[sc])
					}
				}
				for _, q := range l.head.Preds {
					every = every && (!l.body[q] || c.Block().Dominates(q))
				}
				ok = ok || every
			}
			r.at("egest", c, "each target is published to", ok, "a target can be left out, such as after one that could not be published to")
		}
	}
	r.need("egest", "publishes", n, 1)
}

// fedServers: each side connects to its own network.
func fedServers(p *Prog, r *Report) {
	f := r.anchor("servers", "(*"+fedPkg+".pooledWorker).Run")
	if f == nil {
		return
	}
	for mode, m := range map[string]string{"Federation": "FederationMiddlewareServers", "Collective": "MiddlewareServers"} {
		t := &interp{p: p, terms: true, once: true, strict: true, inline: inPackage(fedPkg),
			skip: map[string]bool{"mode": true, "servers": true}, call: gives(map[string]constant.Value{".WithFields": mkTerm("log"), ".WithField": mkTerm("log")}),
			record: func(n string) bool { return nameIn(n, "go", "set "+fedPkg+".pooledWorker.servers") }}
		e := paramTerms(f, "self", "ctx")
		e[cellOf("self.mode")] = p.pkgConst(fedPkg, mode)
		r.mayDo("servers", t, f, e, "connects to the network of mode "+mode, []string{"go self.worker(ctx self 0 log)", "set " + fedPkg + ".pooledWorker.servers=" + m}, []string{"go self.worker(ctx self ? log)"})
	}
}

// fedLinks: stages that are linked share a channel.
func fedLinks(p *Prog, r *Report) {
	for m, want := range map[string][2]string{"To": {"out", "in"}, "From": {"in", "out"}} {
		f := r.anchor("links", "(*"+fedPkg+".pooledWorker)."+m)
		if f == nil {
			continue
		}
		set := fedPkg + ".pooledWorker." + want[0]
		t := &interp{p: p, terms: true, strict: true, inline: inPackage(fedPkg), record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
		r.does("links", t, f, paramTerms(f, "self", "other"), "uses the channel of the other", []string{"set " + set + "=other." + want[1]})
	}
	for m, want := range map[string]string{"Input": "self.in", "Output": "self.out"} {
		if f := r.anchor("links", "(*"+fedPkg+".pooledWorker)."+m); f != nil {
			r.does("links", &interp{p: p, terms: true, inline: inPackage(fedPkg)}, f, paramTerms(f, "self"), "gives its channel", nil, want)
		}
	}
}

// fedStart: requests come from the federation and go to the collective, and replies the other way.
func fedStart(p *Prog, r *Report) {
	f := r.anchor("start", "(*"+fedPkg+".FederationBroker).Start")
	if f == nil {
		return
	}
	modes := map[string]string{}
	for _, m := range []string{"Federation", "Collective"} {
		modes[p.pkgConst(fedPkg, m).ExactString()] = m
	}
	t := &interp{p: p, terms: true, inline: func(g *ssa.Function) bool {
		return inPackage(fedPkg)(g) && !strings.HasPrefix(g.Name(), "New") && !nameIn(g.Name(), "To", "From", "Run")
	},
		record: func(n string) bool { return nameIn(n, "go", "To", "From", "Run") },
		call: func(c ssa.CallInstruction) (string, map[int]constant.Value) {
			g := c.Common().StaticCallee()
			if g == nil || !inPackage(fedPkg)(g) || workerOf(p, g) == nil {
				return "", nil
			}
			n := strings.TrimPrefix(g.Name(), "NewChoria")
			if i := modeParam(g); i >= 0 {
				if m, ok := constInt(c.Common().Args[i]); ok {
					n += modes[constant.MakeInt64(m).ExactString()]
				}
			}
			return "", map[int]constant.Value{0: mkTerm(n)}
		}}
	links := [][2]string{
		{"NatsIngestFederation", "RequestTransformer"}, {"RequestTransformer", "NatsEgestCollective"},
		{"NatsIngestCollective", "ReplyTransformer"}, {"ReplyTransformer", "NatsEgestFederation"},
	}
	ok, det := true, "requests and replies pass through their transformers"
	fails := func(d string) {
		if ok {
			ok, det = false, d
		}
	}
	n := 0
	for _, x := range t.run(f, paramTerms(f, "self", "ctx", "wg")) {
		if x.ret == nil {
			continue
		}
		n++
		if os.Getenv("VERIF_TERMS") != "" {
			fmt.Println(notes(x.effects))
		}
		may := map[string]bool{}
		for _, l := range links {
			to, from := l[0]+".To("+l[1]+")", l[1]+".From("+l[0]+")"
			may[to], may[from] = true, true
			if !x.did(to) && !x.did(from) {
				fails("what comes out of " + l[0] + " does not go to " + l[1])
			}
			for _, st := range l {
				run := "go " + st + ".Run(ctx)"
				may[run] = true
				if !x.did(run) {
					fails(st + " is not run")
				}
			}
		}
		for _, d := range notes(x.effects) {
			if !may[d] {
				fails("can do " + d)
			}
		}
	}
	if n == 0 {
		fails("it never returns")
	}
	r.seen(f)
	r.ob("start", fname(f)+": links and runs all stages", ok, p.pos(f.Pos()), det)
}

// modeParam: which parameter of a constructor of workers says what network they connect to.
func modeParam(f *ssa.Function) int {
	at := -1
	calls(f, func(c ssa.CallInstruction) {
		if as := c.Common().Args; mname(c.Common()) == "PooledWorkerFactory" && len(as) > 2 {
			for i, x := range f.Params {
				if as[2] == x {
					at = i
				}
				if ld, ok := as[2].(*ssa.UnOp); ok {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						for _, u := range *al.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) && st.Val == x {
								at = i
							}
						}
					}
				}
			}
		}
	})
	return at
}
