package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var lockWorlds = map[*Prog]*lockWorld{}

func (p *Prog) locks() *lockWorld {
	if lockWorlds[p] == nil {
		lockWorlds[p] = newLockWorld(p)
	}
	return lockWorlds[p]
}

// Locks of objects that are made anew for each use: two of a class taken together are different locks, and
// nesting them, as a client that makes requests while serving another does, can not deadlock.
func perUseLock(class string) bool {
	return strings.HasPrefix(class, "client/") || strings.HasPrefix(class, "providers/agent/mcorpc/client.") ||
		strings.HasPrefix(class, "message.Message") || strings.HasPrefix(class, "protocol")
}

// lockObs makes one obligation for each function and kind of lock it uses.
func lockObs(p *Prog, r *Report, rules map[string]bool) {
	w := p.locks()
	bad := map[string]bool{}
	for _, pb := range w.probs {
		if !rules[pb.rule] {
			continue
		}
		bad[fname(pb.at.Parent())+": "+pb.what] = true
		r.at(pb.rule, pb.at, pb.what, false, pb.what+" "+pb.det)
	}
	n := 0
	for _, f := range p.Funcs {
		if w.acq[f] == nil {
			continue
		}
		calls(f, func(c ssa.CallInstruction) {
			op, ok := w.lockCall(c.Common())
			if !ok || op.unl {
				return
			}
			n++
			if bad[fname(f)+": "+op.class] {
				return
			}
			for k := range rules {
				r.at(k, c, op.class, true, "on every path of the function, deferred unlocks and the effects of calls included")
			}
		})
	}
	r.need("locks", "lock operations", n, 400)
	r.note("%d functions analysed, %d lock operations, %d kinds of lock", w.Fns, n, len(w.byClass))
}

func init() {
	register(&Check{ID: "C01", Level: "proof",
		Rule:        "Forward disjunctive dataflow of the set of held locks, with deferred calls run at every return and function summaries for wrappers: at each return the function holds exactly the locks it held on entry, and nothing is unlocked that is not held, unless that is the function's effect on all its paths.",
		Explanation: "Covers every path of every function with a sync.Mutex or sync.RWMutex operation in the type-checked packages. Locks are named by access path; paths that end in a panic are not returns.",
		Run: func(p *Prog, r *Report) {
			lockObs(p, r, map[string]bool{"released": true})
		}})

	register(&Check{ID: "C02", Level: "proof",
		Rule:        "At no call is a lock held that the call, through the call graph, locks again (by access path translated through parameters); no lock class is taken while another lock of the same class is held; the graph of lock classes, with an edge where one is taken, directly or through calls, while another is held, has no cycle.",
		Explanation: "Classes are struct fields. Client request objects, RPC clients and messages are made for each use, so nested locks of these classes are different locks and are left out of the ordering. Locks taken by goroutines started under a lock are not nested.",
		Run: func(p *Prog, r *Report) {
			lockObs(p, r, map[string]bool{"reentry": true})
			w := p.locks()
			es := w.edges()
			inCycle := map[string]int{}
			for i, c := range w.cycles(filterEdges(es)) {
				for _, x := range c {
					inCycle[x] = i + 1
				}
			}
			for _, e := range es {
				if perUseLock(e.from) || perUseLock(e.to) {
					continue
				}
				via := e.via
				if via != "" {
					via = " through " + via
				}
				ok := e.from != e.to && (inCycle[e.from] == 0 || inCycle[e.from] != inCycle[e.to])
				r.at("order", e.at, e.from+" then "+e.to, ok, fmt.Sprintf("%s is taken%s while %s is held, elsewhere they are taken the other way around", e.to, via, e.from))
			}
		}})

	register(&Check{ID: "C03", Level: "proof",
		Rule:        "For every listed field of a shared object some lock of that object is held, for writing where it is changed, at every access outside of the object's construction: reads, stores, map and slice element accesses, ranges, len, delete. Locks held by all callers count.",
		Explanation: "The must-held set at an instruction is the intersection over all paths to it, joined with the intersection over all call sites of the function when all of them are known. The list of fields was derived from the pinned tree: fields changed after construction that were always accessed under a lock.",
		Run:         func(p *Prog, r *Report) { guarded(p, r) }})
}

func filterEdges(es []lockEdge) []lockEdge {
	var out []lockEdge
	for _, e := range es {
		if !perUseLock(e.from) && !perUseLock(e.to) {
			out = append(out, e)
		}
	}
	return out
}

// guards: the lock belongs to the object, or package, accessed.
func guards(h heldLock, a fieldAccess) bool {
	if g, ok := a.base.root.(*ssa.Global); ok && a.base.path == "" && a.fa == nil {
		l, ok := h.lp.root.(*ssa.Global)
		return ok && l.Pkg == g.Pkg
	}
	return h.lp.root == a.base.root && strings.HasPrefix(h.lp.path, a.base.path+".")
}

var debugGuards = os.Getenv("VERIF_GUARDS") != ""

func guarded(p *Prog, r *Report) {
	w := p.locks()
	w.entries()
	acc := w.accesses()
	for k, v := range w.globalAccesses() {
		acc[k] = v
	}
	if debugGuards {
		for k, as := range acc {
			wr, ok := 0, 0
			for _, a := range as {
				if a.write {
					wr++
				}
				for _, h := range w.mustHeld(a.at) {
					if guards(h, a) && (!h.read || !a.write) {
						ok++
						break
					}
				}
			}
			if wr > 0 && ok > 0 {
				fmt.Println("GUARD", k, wr, ok, len(as)-ok)
			}
		}
	}
	if debugGuards {
		for _, f := range p.Funcs {
			if s := w.sums[f]; s != nil && (len(s.acquires) > 0 || len(s.releases) > 0) {
				fmt.Println("WRAP", fname(f), len(s.acquires), len(s.releases))
			}
		}
		own := w.ownedAccesses()
		for _, k := range sortedKeys(own) {
			as := own[k]
			wr := 0
			n := map[string]int{}
			for _, a := range as {
				if a.write {
					wr++
				}
				for _, h := range w.mustHeld(a.at) {
					n[h.class]++
				}
			}
			for c, x := range n {
				if wr > 0 && x*10 >= len(as)*8 {
					fmt.Println("OWNED", k, c, "writes", wr, "ok", x, "bad", len(as)-x)
				}
			}
		}
	}
	found := 0
	for _, k := range strings.Fields(guardedFields) {
		if len(acc[k]) == 0 {
			r.note("%s is not a field of a struct with a lock any more, or not accessed", k)
			continue
		}
		found++
		// the lock that covers most accesses is the guard
		n := map[string]int{}
		covers := func(a fieldAccess) map[string]bool {
			m := map[string]bool{}
			for _, h := range w.mustHeld(a.at) {
				if guards(h, a) && (!h.read || !a.write) {
					m[h.class] = true
				}
			}
			return m
		}
		for _, a := range acc[k] {
			for g := range covers(a) {
				n[g]++
			}
		}
		best := ""
		for _, g := range sortedKeys(n) {
			if n[g] > n[best] {
				best = g
			}
		}
		for _, a := range acc[k] {
			ok := best != "" && covers(a)[best]
			want := best
			if want == "" {
				want = "a lock of the object"
			}
			r.at("guarded", a.at, k+" "+a.how, ok, fmt.Sprintf("%s is %s here without holding %s", k, a.how, want))
		}
	}
	own := w.ownedAccesses()
	for _, k := range strings.Fields(ownedFields) {
		n := map[string]int{}
		for _, a := range own[k] {
			for _, h := range w.mustHeld(a.at) {
				n[h.class]++
			}
		}
		best := ""
		for _, g := range sortedKeys(n) {
			if n[g] > n[best] {
				best = g
			}
		}
		if best == "" {
			r.note("%s is not accessed", k)
			continue
		}
		found++
		for _, a := range own[k] {
			ok := false
			for _, h := range w.mustHeld(a.at) {
				ok = ok || h.class == best && (!h.read || !a.write)
			}
			r.at("guarded", a.at, k+" "+a.how, ok, fmt.Sprintf("%s is %s here without holding %s", k, a.how, best))
		}
	}
	r.need("guarded", "guarded fields", found, 80)
}
