package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], os.Args[3:]))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" { // the search alone
		c := &checker{verif: envOr("GVC_VERIF", "/verif"), repo: envOr("GVC_REPO", "/repo"), prop: os.Args[2], tier: "quick", seed: 1}
		out, found := c.replay()
		fmt.Println(out, found)
		return
	}
	repo := flag.String("repo", "/repo", "code under verification")
	dir := flag.String("contracts", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	fns := flag.String("fn", "", "functions (debugging)")
	debug := flag.Bool("debug", false, "")
	flag.Parse()
	if f := os.Getenv("GVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := Load(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	ct, err := LoadContracts(*dir)
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	ct.Theory.ct, ct.Theory.p = ct, p
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	pool := NewPool(8)
	defer pool.Close()
	for _, n := range strings.Split(*fns, ",") {
		fc := ct.Funcs[n]
		if fc == nil {
			fmt.Println("no contract", n)
			continue
		}
		t1 := time.Now()
		x := newExec(p, ct, pool, execCfg{prop: *prop, debug: *debug})
		r := x.Verify(fc)
		t2 := time.Now()
		discharge(x, r.Obls)
		bad := 0
		for _, o := range r.Obls {
			if o.Verdict != Proved || *debug {
				fmt.Printf("  %v %s %s\n", o.Verdict, o.Name(), "")
			}
			if o.Verdict != Proved {
				bad++
				if *debug {
					fmt.Println("     goal", o.goal)
				}
			}
		}
		cov := 0
		discharge(x, r.Covers)
		for _, o := range r.Covers {
			if o.Verdict == Proved {
				fmt.Println("  VACUOUS", o.Name())
			}
			cov++
		}
		fmt.Printf("%s: %d obligations, %d failed, %d exits, gen %v prove %v err=%q\n", n, len(r.Obls), bad, r.Exits, t2.Sub(t1).Round(time.Millisecond), time.Since(t2).Round(time.Millisecond), r.Err)
	}
	lo := ct.Theory.lemmaObls(p)
	if len(lo) > 0 {
		x := newExec(p, ct, pool, execCfg{})
		dischargeLemmas(x, lo)
		for _, o := range lo {
			if o.Verdict != Proved {
				fmt.Printf("  %v %s: %v\n", o.Verdict, o.Name(), o.goal)
			}
		}
		fmt.Printf("lemmas: %d\n", len(lo))
	}
	fmt.Printf("queries %d (cache hits %d), solver %v, total %v\n", pool.Queries, pool.Hits, time.Duration(pool.NanoZ3).Round(time.Millisecond), time.Since(t0).Round(time.Millisecond))
}
