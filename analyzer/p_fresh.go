package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lin is a sum of times and durations, in nanoseconds: now, made (when the message was made), ttl (seconds) and a constant.
type lin struct {
	now, made, ttl, k int64
	seconds           bool // of the ttl, before it is made a duration
}

func (a lin) add(b lin, s int64) lin {
	return lin{a.now + s*b.now, a.made + s*b.made, a.ttl + s*b.ttl, a.k + s*b.k, false}
}

func (a lin) times(n int64) lin { return lin{a.now * n, a.made * n, a.ttl * n, a.k * n, false} }

func (a lin) constant() bool { return a.now == 0 && a.made == 0 && a.ttl == 0 }

// ages evaluates times on one path through a function.
type ages struct {
	p     *Prog
	prev  map[*ssa.BasicBlock]*ssa.BasicBlock
	depth int
	bind  map[ssa.Value]ssa.Value
}

func (t *ages) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			p := t.prev[x.Block()]
			if p == nil {
				return v
			}
			for i, b := range x.Block().Preds {
				if b == p {
					v = x.Edges[i]
				}
			}
			if v == ssa.Value(x) {
				return v
			}
			continue
		case *ssa.Parameter:
			if b, ok := t.bind[x]; ok {
				v = b
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		}
		return v
	}
	return v
}

func (t *ages) lin(v ssa.Value) (lin, bool) {
	v = t.resolve(v)
	switch x := v.(type) {
	case *ssa.Const:
		if k, ok := constInt(x); ok {
			return lin{k: k}, true
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			a, ok := t.lin(x.X)
			return a.times(-1), ok
		case token.MUL:
			switch loadedField(x) {
			case "message.Message.ttl":
				return lin{ttl: 1}, true
			case "message.Message.timeStamp":
				return lin{made: 1}, true
			}
		}
	case *ssa.BinOp:
		a, ok := t.lin(x.X)
		b, ok2 := t.lin(x.Y)
		if !ok || !ok2 {
			return lin{}, false
		}
		switch x.Op {
		case token.ADD:
			return a.add(b, 1), true
		case token.SUB:
			return a.add(b, -1), true
		case token.MUL:
			if b.constant() {
				return a.times(b.k), true
			}
			if a.constant() {
				return b.times(a.k), true
			}
		}
	case *ssa.Call:
		av := x.Call.Args
		at := func(i int) (lin, bool) {
			if i >= len(av) {
				return lin{}, false
			}
			return t.lin(av[i])
		}
		two := func(s int64) (lin, bool) {
			a, ok := at(0)
			b, ok2 := at(1)
			return a.add(b, s), ok && ok2
		}
		switch cname(&x.Call) {
		case "time.Now":
			return lin{now: 1}, true
		case "(time.Time).Add":
			return two(1)
		case "(time.Time).Sub":
			return two(-1)
		case "time.Since":
			a, ok := at(0)
			return lin{now: 1}.add(a, -1), ok
		case "time.Until":
			a, ok := at(0)
			return a.add(lin{now: 1}, -1), ok
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round":
			return at(0)
		case "(time.Time).UnixNano":
			return at(0)
		}
		return t.helper(x, 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return t.helper(c, x.Index)
		}
	}
	return lin{}, false
}

// helper: what a function of one path gives.
func (t *ages) helper(c *ssa.Call, idx int) (lin, bool) {
	g := c.Call.StaticCallee()
	if g == nil || !t.p.InRepo[g] || len(g.Blocks) != 1 || t.depth > 3 {
		return lin{}, false
	}
	ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || idx >= len(ret.Results) {
		return lin{}, false
	}
	in := &ages{p: t.p, prev: t.prev, depth: t.depth + 1, bind: map[ssa.Value]ssa.Value{}}
	for i, pa := range g.Params {
		if i < len(c.Call.Args) {
			in.bind[pa] = t.resolve(c.Call.Args[i])
		}
	}
	return in.lin(ret.Results[idx])
}

// less: what must be below zero for a condition to hold.
func (t *ages) less(v ssa.Value) (ds []lin, neg, ok bool) {
	v = t.resolve(v)
	diff := func(a, b ssa.Value) ([]lin, bool, bool) {
		// |x| < y
		if c, isCall := t.resolve(a).(*ssa.Call); isCall && cname(&c.Call) == "(time.Duration).Abs" {
			x, ok := t.lin(c.Call.Args[0])
			y, ok2 := t.lin(b)
			return []lin{x.add(y, -1), x.times(-1).add(y, -1)}, false, ok && ok2
		}
		x, ok := t.lin(a)
		y, ok2 := t.lin(b)
		return []lin{x.add(y, -1)}, false, ok && ok2
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			ds, neg, ok := t.less(x.X)
			return ds, !neg, ok
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.LSS, token.LEQ:
			return diff(x.X, x.Y)
		case token.GTR, token.GEQ:
			return diff(x.Y, x.X)
		}
	case *ssa.Call:
		if len(x.Call.Args) == 2 {
			switch cname(&x.Call) {
			case "(time.Time).Before":
				return diff(x.Call.Args[0], x.Call.Args[1])
			case "(time.Time).After":
				return diff(x.Call.Args[1], x.Call.Args[0])
			}
		}
	}
	return nil, false, false
}

// below: whether something is known to be below zero; its opposite then is not.
func below(known map[lin]bool, d lin) (y, ok bool) {
	if y, ok := known[d]; ok {
		return y, true
	}
	y, ok = known[d.times(-1)]
	return !y, ok
}

// freshOnly: a message is fresh exactly when it was made less than its time to live ago, or ahead.
func freshOnly(p *Prog, r *Report, f *ssa.Function) {
	const rule = "age"
	sec := int64(1000000000)
	old := lin{now: 1, made: -1, ttl: -sec}
	ahead := lin{now: -1, made: 1, ttl: -sec}
	bad := ""
	paths := 0
	var walk func(b *ssa.BasicBlock, t *ages, known map[lin]bool, seen map[*ssa.BasicBlock]bool)
	judge := func(known map[lin]bool, given bool, at ssa.Instruction) {
		paths++
		o, k1 := below(known, old)
		a, k2 := below(known, ahead)
		fresh := k1 && k2 && o && a
		stale := k1 && !o || k2 && !a
		switch {
		case given && !fresh && bad == "":
			bad = "accepts messages without their age being below the time to live both ways at " + p.ipos(at)
		case !given && !stale && bad == "":
			bad = "refuses messages that are not too old at " + p.ipos(at)
		}
	}
	with := func(known map[lin]bool, d lin, y bool) map[lin]bool {
		n := map[lin]bool{d: y}
		for k, v := range known {
			n[k] = v
		}
		return n
	}
	// split: the outcomes of a condition that asks for all of these
	split := func(known map[lin]bool, ds []lin, neg bool, visit func(known map[lin]bool, holds bool)) {
		all := known
		for i, d := range ds {
			if y, ok := below(known, d); ok {
				if !y {
					visit(all, neg)
					return
				}
				continue
			}
			visit(with(all, d, false), neg)
			all = with(all, d, true)
			_ = i
		}
		visit(all, !neg)
	}
	walk = func(b *ssa.BasicBlock, t *ages, known map[lin]bool, seen map[*ssa.BasicBlock]bool) {
		if seen[b] || b == f.Recover {
			return
		}
		ns := map[*ssa.BasicBlock]bool{b: true}
		for k := range seen {
			ns[k] = true
		}
		next := func(s *ssa.BasicBlock, known map[lin]bool) {
			prev := map[*ssa.BasicBlock]*ssa.BasicBlock{}
			for k, v := range t.prev {
				prev[k] = v
			}
			prev[s] = b
			walk(s, &ages{p: p, prev: prev, bind: map[ssa.Value]ssa.Value{}}, known, ns)
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			v := t.resolve(x.Results[0])
			if k, ok := constBool(v); ok {
				judge(known, k, x)
				return
			}
			ds, neg, ok := t.less(v)
			if !ok {
				if bad == "" {
					bad = "the age is not what decides at " + p.ipos(x)
				}
				return
			}
			split(known, ds, neg, func(known map[lin]bool, holds bool) { judge(known, holds, x) })
		case *ssa.If:
			ds, neg, ok := t.less(x.Cond)
			if !ok {
				// decided by something else: must not matter
				next(b.Succs[0], known)
				next(b.Succs[1], known)
				return
			}
			split(known, ds, neg, func(known map[lin]bool, holds bool) {
				if holds {
					next(b.Succs[0], known)
				} else {
					next(b.Succs[1], known)
				}
			})
		default:
			for _, s := range b.Succs {
				next(s, known)
			}
		}
	}
	walk(f.Blocks[0], &ages{p: p, prev: map[*ssa.BasicBlock]*ssa.BasicBlock{}, bind: map[ssa.Value]ssa.Value{}}, map[lin]bool{}, map[*ssa.BasicBlock]bool{})
	if paths == 0 && bad == "" {
		bad = "has no paths"
	}
	r.seen(f)
	r.ob(rule, fname(f)+": fresh is what was made within its time to live", bad == "", p.pos(f.Pos()), bad)
}

// sameMessage: what was verified is what is acted on, with the age and the credentials it came with.
func sameMessage(p *Prog, r *Report) {
	n := 0
	for _, f := range p.Funcs {
		if f.Name() == "ValidateTTL" && f.Signature.Recv() != nil && !isMock(fnPkgPath(f)) && f.Blocks != nil && f.Synthetic == "" {
			n++
			freshOnly(p, r, f)
		}
	}
	r.need("age", "age checks", n, 1)
	// the age is that of the request
	if f := r.anchor("age", "message.NewMessageFromRequest"); f != nil {
		// two are made, the one that is given counts
		makes := func(g *ssa.Function) bool {
			rs := g.Signature.Results()
			return rs.Len() > 0 && short(typeName(rs.At(0).Type())) == "message.Message"
		}
		in := helpers(p, f)
		t := &interp{p: p, terms: true, conds: true, inline: func(g *ssa.Function) bool { return in(g) && !makes(g) }}
		r.judge("age", t, f, paramTerms(f, "req", "replyto", "choria"), "carries the age of the request", func(o *pathOf) string {
			if o.out == "fail" {
				return ""
			}
			if len(o.vals) == 0 || o.vals[0] == nil {
				return "what it gives is not known"
			}
			for _, d := range []string{"ttl=req.TTL()", "timeStamp=req.Time()", "requestID=req.RequestID()"} {
				k, want, _ := strings.Cut(d, "=")
				if y := o.cells[cellOf(showTerm(o.vals[0])+"."+k)]; y == nil || noIdentity(showTerm(y)) != want {
					return "does not take " + d
				}
			}
			return ""
		})
	}
	for _, pkg := range []string{"v1", "v2"} {
		env := map[string]string{"v1": "r.Envelope.", "v2": "r.ReqEnvelope."}[pkg]
		gives := map[string]string{"TTL": env + "TTL", "Time": "Unix(0 " + env + "Time)", "CallerID": env + "CallerID"}
		if pkg == "v2" {
			gives["CallerPublicData"] = "r.callerJWT"
			gives["SignerPublicData"] = "r.signerJWT"
		} else {
			gives["Time"] = "Unix(" + env + "Time 0)"
		}
		for _, m := range sortedKeys(gives) {
			f := r.anchor("carried", "(*protocol/"+pkg+".Request)."+m)
			if f == nil {
				continue
			}
			t := &interp{p: p, terms: true, conds: true, inline: helpers(p, f)}
			r.judge("carried", t, f, paramTerms(f, "r"), "what came with the request", func(o *pathOf) string {
				if o.given != gives[m] {
					return "gives " + o.given
				}
				return ""
			})
		}
	}
	if f := r.anchor("carried", "protocol/v2.NewRequestFromSecureRequest"); f != nil {
		t := &interp{p: p, terms: true, conds: true, inline: helpers(p, f), record: func(n string) bool { return strings.HasPrefix(n, "set ") }}
		r.judge("carried", t, f, paramTerms(f, "sr"), "the credentials it came with", func(o *pathOf) string {
			if o.out == "fail" {
				return ""
			}
			for _, d := range []string{"callerJWT=sr.CallerJWT", "signerJWT=sr.SignerJWT"} {
				if !o.did["set protocol/v2.Request."+d] {
					return "does not take " + d
				}
			}
			return ""
		})
	}
	// the keys that are asked for are all that came with it
	for _, x := range []struct{ f, body, alone, both, extra string }{
		{"(*protocol/v1.SecureRequest).Valid", "r.MessageBody", "[r.PublicCertificate]", "", ""},
		{"(*protocol/v2.SecureRequest).Valid", "r.MessageBody", "[r.CallerJWT]", "[r.CallerJWT r.SignerJWT]", "empty(r.SignerJWT)"},
	} {
		f := r.anchor("keys", x.f)
		if f == nil {
			continue
		}
		t := &interp{p: p, terms: true, conds: true, turns: 2, inline: helpers(p, f), record: func(n string) bool {
			return strings.HasSuffix(n, "VerifySignatureBytes") || strings.HasSuffix(n, "ShouldAllowCaller")
		}}
		r.judge("keys", t, f, paramTerms(f, "r"), "all credentials are verified together", func(o *pathOf) string {
			return o.considering(func(ask func(conds ...string) bool) string {
				want := x.alone
				if x.extra != "" && !ask(x.extra) {
					want = x.both
				}
				for d := range o.did {
					bare := strings.TrimSuffix(strings.TrimPrefix(want, "["), "]")
					if !strings.HasSuffix(d, " "+want+")") && !strings.HasSuffix(d, " "+bare+")") {
						return "asks with " + d
					}
				}
				return ""
			})
		})
	}
	// a request that was decoded is not changed
	fl := &Flow{P: p, Stop: callSource("NewRequestFromSecureRequest")}
	set := 0
	for _, f := range p.Funcs {
		if isMock(fnPkgPath(f)) || !p.InRepo[f] {
			continue
		}
		calls(f, func(c ssa.CallInstruction) {
			cc := c.Common()
			n := mname(cc)
			if !strings.HasPrefix(n, "Set") || strings.Contains(n, "ederat") || strings.HasPrefix(n, "SetUnfederated") {
				return
			}
			rv := recvArg(cc)
			if rv == nil || !nameIn(typeName(rv.Type()), "protocol.Request", "protocol/v1.Request", "protocol/v2.Request") {
				return
			}
			set++
			bad := ""
			for _, o := range fl.From(rv) {
				if o.Label == "result:NewRequestFromSecureRequest" {
					bad = "a request that was received is changed with " + n
				}
			}
			r.at("unchanged", c, "request that is changed", bad == "", bad)
		})
	}
	r.need("unchanged", "changes of requests", set, 4)
	for _, f := range p.Funcs {
		if f.Name() != "NewSecureRequestFromTransport" || f.Signature.Recv() != nil || isMock(fnPkgPath(f)) {
			continue
		}
		var valid []ssa.Instruction
		calls(f, func(c ssa.CallInstruction) {
			if mname(c.Common()) == "Valid" {
				valid = append(valid, c)
			}
		})
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				what := ""
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(typeName(fa.X.Type()), ".SecureRequest") {
						what = "sets " + fieldName(fa)
					}
				case ssa.CallInstruction:
					if into, _ := isDecode(x.Common()); into != nil {
						what = "decodes"
					}
				}
				if what == "" {
					continue
				}
				bad := ""
				for _, v := range valid {
					if reachableAfter(v, i) {
						bad = what + " after it was verified"
					}
				}
				r.at("unchanged", i, "secure request "+what, bad == "", bad)
			}
		}
	}
}
