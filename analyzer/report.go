package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to a construct of the source.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Pos       string `json:"pos,omitempty"`
	Detail    string `json:"detail,omitempty"`
}

func (o Ob) key() string { return o.Rule + "|" + o.Construct }

// Report collects what one check looked at.
type Report struct {
	P     *Prog
	ID    string
	Obs   []Ob
	Funcs map[string]bool
	Notes []string
	index map[string]int
}

func (r *Report) ob(rule, construct string, ok bool, pos, detail string) {
	o := Ob{rule, construct, ok, pos, detail}
	if i, dup := r.index[o.key()]; dup {
		// one construct may be reached more than once: a failure wins
		if !ok && r.Obs[i].OK {
			r.Obs[i] = o
		}
		return
	}
	r.index[o.key()] = len(r.Obs)
	r.Obs = append(r.Obs, o)
}

// at records an obligation about an instruction.
func (r *Report) at(rule string, i ssa.Instruction, what string, ok bool, detail string) {
	f := i.Parent()
	r.seen(f)
	r.ob(rule, fname(f)+": "+what, ok, r.P.ipos(i), detail)
}

func (r *Report) seen(fs ...*ssa.Function) {
	for _, f := range fs {
		if f != nil {
			r.Funcs[fname(f)] = true
		}
	}
}

// need records that a rule found at least min instances of what it looks for.
func (r *Report) need(rule, what string, got, min int) bool {
	if got < min {
		r.ob(rule, "instances of "+what, false, "", fmt.Sprintf("found %d, need at least %d: the rule has nothing to decide on, so the property is undecided", got, min))
		return false
	}
	return true
}

// anchor looks up a function that a rule needs.
func (r *Report) anchor(rule, name string) *ssa.Function {
	f := r.P.fn(name)
	if f == nil {
		r.ob(rule, "anchor "+name, false, "", "this function can not be found in the current tree: the property is undecided")
		return nil
	}
	r.seen(f)
	return f
}

func (r *Report) note(f string, a ...any) { r.Notes = append(r.Notes, fmt.Sprintf(f, a...)) }

// Check is the decision procedure of one property.
type Check struct {
	ID          string
	Level       string
	Rule        string // the rule, in words
	Explanation string // what deciding it this way covers and what it does not
	Assume      []string
	Run         func(p *Prog, r *Report)
}

var registry = map[string]*Check{}

func register(c *Check) {
	if registry[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	registry[c.ID] = c
}

type knownFinding struct{ prop, key, text string }

func readKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimPrefix(rest, "key=")
		key, text, _ := strings.Cut(rest, " -- ")
		out = append(out, knownFinding{id, strings.TrimSpace(key), text})
	}
	return out
}

func runCheck(p *Prog, c *Check, verif, tier string, seed int, loadTime time.Duration) int {
	start := time.Now()
	r := &Report{P: p, ID: c.ID, Funcs: map[string]bool{}, index: map[string]int{}}
	for _, b := range p.Broken {
		r.ob("type-check", b, false, "", "package does not type check, nothing in it can be decided")
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(e)
				}
				r.ob("analyzer", fmt.Sprintf("%v", e), false, "", "the analysis did not complete: the property is undecided")
			}
		}()
		c.Run(p, r)
	}()

	known := map[string]string{}
	for _, k := range readKnown(filepath.Join(verif, "known_findings.txt")) {
		if k.prop == c.ID {
			known[k.key] = k.text
		}
	}
	var bad, kn []Ob
	for _, o := range r.Obs {
		if o.OK {
			continue
		}
		if _, ok := known[o.key()]; ok {
			kn = append(kn, o)
			continue
		}
		bad = append(bad, o)
	}
	discharged := 0
	byRule := map[string]int{}
	for _, o := range r.Obs {
		byRule[o.Rule]++
		if o.OK {
			discharged++
		}
	}
	if len(r.Obs) == 0 {
		bad = append(bad, Ob{Rule: "coverage", Construct: c.ID, Detail: "no obligations were found: nothing was decided"})
	}
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)

	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, c.ID+".violations.txt")
	os.Remove(replay)

	samples := []any{}
	for i, o := range r.Obs {
		if i < 400 {
			samples = append(samples, o)
		}
	}
	cov := map[string]any{
		"obligations":         len(r.Obs),
		"discharged":          discharged,
		"checker_cmd":         fmt.Sprintf("./check.sh %s %s", c.ID, tier),
		"trusted_base":        []string{"go/types and go/ssa (golang.org/x/tools v0.52.0) on the go1.25.14 toolchain's export data", "the rules of /verif/analyzer for this property", "the behaviour of dependencies at the API the rules name"},
		"rule":                c.Rule,
		"explanation":         c.Explanation,
		"obligations_by_rule": byRule,
		"functions_analysed":  fns,
		"packages_loaded":     len(p.Pkgs),
		"functions_loaded":    len(p.Funcs),
		"packages_excluded":   p.Ill,
		"samples":             samples,
		"known_findings":      len(kn),
		"notes":               r.Notes,
	}
	ev := map[string]any{
		"property":    c.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       c.Level,
		"coverage":    cov,
		"assumptions": append([]string{"packages that need github.com/choria-io/appbuilder (the root package, cmd and providers/appbuilder) are not type-checkable here and are outside the type-based rules"}, c.Assume...),
		"wall_s":      (time.Since(start) + loadTime).Seconds(),
		"violations":  len(bad),
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, c.ID+".json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, o := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", c.ID, o.Rule, o.Construct, known[o.key()])
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations, %d functions, rules %v\n", c.ID, len(r.Obs), discharged, len(kn), len(bad), len(fns), byRule)
	if len(bad) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s\n  at %s\n  rule %s\n  %s\n", o.Construct, o.Pos, o.Rule, o.Detail)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}
