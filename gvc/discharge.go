package main

import (
	"strings"
	"sync"
)

// discharge proves obligations, grouping those with the same assumptions.
func discharge(x *Exec, obls []*Obl) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, o := range obls {
		o := o
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			rl := int64(30_000_000)
			if o.Kind == "reachable" {
				rl = 3_000_000
			}
			o.Verdict = x.prove(o.assume, []*Term{o.goal}, rl)[0]
			o.Backend = "z3"
		}()
	}
	wg.Wait()
}

// dischargeLemmas proves lemmas without using themselves.
func dischargeLemmas(x *Exec, obls []*Obl) {
	t := x.ct.Theory
	order := map[string]int{}
	for i, f := range t.facts {
		order[f.name] = i
	}
	for _, o := range obls {
		name, _, _ := strings.Cut(o.Label, "[")
		except := map[string]bool{}
		// only lemmas stated earlier may be used
		for k, fi := range t.done {
			if fi.f.lemma && order[fi.f.name] >= order[name] {
				except[k] = true
			}
		}
		ts := append(append([]*Term{}, o.assume...), o.goal)
		ex := t.extra(ts, x.p, except)
		o.Verdict = x.pool.Prove(Query{preamble: x.preamble(), assume: append(append([]*Term{}, o.assume...), ex...), goals: []*Term{o.goal}, rlimit: 30_000_000})[0]
		o.Backend = "z3"
	}
}
