package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	prop := flag.String("prop", "", "property to decide, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	list := flag.Bool("list", false, "list checks")
	rules := flag.Bool("rules", false, "show the rules of checks")
	dump := flag.String("dump", "", "dump the SSA of a function")
	flag.Parse()

	if *list {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if *rules {
		for _, c := range registry {
			fmt.Printf("%s\t%s\t%s\n", c.ID, c.Rule, c.Explanation)
		}
		return
	}
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, err := os.Create(f)
		if err != nil {
			fatal("%v", err)
		}
		pprof.StartCPUProfile(w)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	p, err := load(*repo)
	if err != nil {
		fatal("loading %s: %v", *repo, err)
	}
	lt := time.Since(start)
	if *dump != "" {
		f := p.fn(*dump)
		if f == nil {
			fatal("no such function")
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		if registry[*prop] == nil {
			fatal("no check for %q", *prop)
		}
		ids = []string{*prop}
	}
	rc := 0
	for _, id := range ids {
		t := time.Now()
		c := runCheck(p, registry[id], *verif, *tier, seed, lt)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Printf("  [%s took %s]\n", id, time.Since(t).Round(time.Millisecond))
		}
		if c > rc {
			rc = c
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}
