package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Termination. After the invariants of a loop are known, a lexicographic
// variant is looked for: linear measures over the loop-carried integers that
// move towards a bound which the loop does not change. A range over a map or a
// string ends by itself.

type measure struct {
	label string
	f     func(s *State, p map[*ssa.Phi]Val) *Term // has to grow
}

// variant tries to prove that the loop ends; ends are its back edges.
func (x *Exec) variant(st *State, lp *loopT, hs *State, hphis map[*ssa.Phi]Val, ints, vars []named, ends []backEdge) {
	if x.quiet > 0 || x.light > 0 {
		return
	}
	o := &Obl{Fn: x.fc.Name, Kind: "terminates", Label: "loop in " + lp.header.Parent().Name() + " at " + x.pos(lp.header.Instrs[len(lp.header.Instrs)-1]), Verdict: Unknown}
	x.terms = append(x.terms, o)
	for _, in := range lp.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			o.Verdict, o.Backend = Proved, "range over a map or a string"
			return
		}
	}
	var left []backEdge
	for _, e := range ends {
		if !e.st.dead {
			left = append(left, e)
		}
	}
	o.Backend = "z3"
	if len(left) == 0 {
		o.Verdict = Proved
		return
	}
	// atoms: loop-carried integers and lengths
	type atom struct {
		name string
		f    func(s *State, p map[*ssa.Phi]Val) *Term
	}
	var atoms []atom
	seen := map[*Term]bool{}
	put := func(name string, f func(s *State, p map[*ssa.Phi]Val) *Term) {
		t := f(hs, hphis)
		if t == nil || seen[t] {
			return
		}
		for _, e := range left {
			if f(e.st, e.phis) == nil {
				return
			}
		}
		seen[t] = true
		atoms = append(atoms, atom{name, f})
	}
	for _, i := range ints {
		i := i
		put(i.name, func(s *State, p map[*ssa.Phi]Val) *Term { t, _ := i.v(s, p).(*Term); return t })
	}
	for _, v := range vars {
		v := v
		if _, ok := v.t.Underlying().(*types.Slice); !ok {
			continue
		}
		put("len("+v.name+")", func(s *State, p map[*ssa.Phi]Val) *Term {
			w := v.v(s, p)
			if w == nil {
				return nil
			}
			return asSlice(w).len
		})
	}
	if len(atoms) > 10 {
		atoms = atoms[:10]
	}
	var ms []measure
	neg := func(t *Term) *Term { return Sub(Zero, t) }
	for i, a := range atoms {
		a := a
		ms = append(ms, measure{a.name, a.f}, measure{"-" + a.name, func(s *State, p map[*ssa.Phi]Val) *Term { return neg(a.f(s, p)) }})
		for _, b := range atoms[i+1:] {
			b := b
			ms = append(ms,
				measure{a.name + "+" + b.name, func(s *State, p map[*ssa.Phi]Val) *Term { return Add(a.f(s, p), b.f(s, p)) }},
				measure{a.name + "-" + b.name, func(s *State, p map[*ssa.Phi]Val) *Term { return Sub(a.f(s, p), b.f(s, p)) }},
				measure{b.name + "-" + a.name, func(s *State, p map[*ssa.Phi]Val) *Term { return Sub(b.f(s, p), a.f(s, p)) }},
				measure{"-" + a.name + "-" + b.name, func(s *State, p map[*ssa.Phi]Val) *Term { return neg(Add(a.f(s, p), b.f(s, p))) }})
		}
	}
	// what the loop leaves alone
	var bounds []*Term
	bseen := map[*Term]bool{}
	bound := func(t *Term) {
		if n, ok := t.num(); ok && (n > 1<<32 || n < -1<<32) {
			return // a range of the machine's, not a bound of the program
		}
		if !bseen[t] && t.sort == SInt && !t.hasBV && olderThan(t, st.fresh) {
			bseen[t] = true
			bounds = append(bounds, t)
		}
	}
	bound(Zero)
	bound(One)
	walked := map[*Term]bool{}
	for _, e := range left {
		for _, t := range e.st.pc[min(len(st.pc), len(e.st.pc)):] {
			comparisons(t, walked, bound)
		}
	}
	for i := 2; i < len(bounds) && i < 12; i++ {
		for j := i; j < len(bounds) && j < 12; j++ {
			bound(Add(bounds[i], bounds[j]))
		}
	}
	if len(bounds) > 80 {
		bounds = bounds[:80]
	}
	used := ""
	// first without the quantified facts, which is quick
	bare := true
	prove := func(pc, gs []*Term) []Verdict {
		if !bare {
			return x.prove(pc, gs, 800_000*x.boost())
		}
		var qf []*Term
		for _, t := range pc {
			if !hasQuant(t) {
				qf = append(qf, t)
			}
		}
		return x.pool.Prove(Query{preamble: x.preamble(), assume: qf, goals: gs, rlimit: 400_000})
	}
	for len(left) > 0 {
		goals := func(f func(m measure, e backEdge) *Term, pick []int) [][]Verdict {
			res := make([][]Verdict, len(left))
			var wg sync.WaitGroup
			for k, e := range left {
				k, e := k, e
				var gs []*Term
				for _, i := range pick {
					gs = append(gs, f(ms[i], e))
				}
				wg.Add(1)
				go func() { defer wg.Done(); res[k] = prove(e.st.pc, gs) }()
			}
			wg.Wait()
			return res
		}
		var all []int
		for i := range ms {
			all = append(all, i)
		}
		grow := goals(func(m measure, e backEdge) *Term { return Lt(m.f(hs, hphis), m.f(e.st, e.phis)) }, all)
		hold := goals(func(m measure, e backEdge) *Term { return Le(m.f(hs, hphis), m.f(e.st, e.phis)) }, all)
		done := false
		for i := range ms {
			ok, some := true, false
			for k := range left {
				ok = ok && hold[k][i] == Proved
				some = some || grow[k][i] == Proved
			}
			if !ok || !some {
				continue
			}
			// a common bound where it grows
			live := append([]*Term{}, bounds...)
			for k, e := range left {
				if grow[k][i] != Proved || len(live) == 0 {
					continue
				}
				var gs []*Term
				for _, b := range live {
					gs = append(gs, Le(ms[i].f(hs, hphis), b))
				}
				var keep []*Term
				for j, v := range prove(e.st.pc, gs) {
					if v == Proved {
						keep = append(keep, live[j])
					}
				}
				live = keep
			}
			if len(live) == 0 {
				continue
			}
			var rest []backEdge
			for k, e := range left {
				if grow[k][i] != Proved {
					rest = append(rest, e)
				}
			}
			left = rest
			used += fmt.Sprintf(" %s <= %s", ms[i].label, clip(live[0].String(), 60))
			done = true
			break
		}
		if !done && bare {
			bare = false
			continue
		}
		if !done {
			if x.cfg.debug {
				var ls, bs []string
				for _, m := range ms {
					ls = append(ls, m.label)
				}
				for _, b := range bounds {
					bs = append(bs, clip(b.String(), 60))
				}
				fmt.Fprintf(os.Stderr, "no variant for %s: measures %v, bounds %v\n", o.Label, ls, bs)
			}
			return
		}
	}
	o.Verdict = Proved
	o.Label += " (" + strings.TrimSpace(used) + ")"
	if x.cfg.debug {
		fmt.Fprintln(os.Stderr, "ends:", o.Label)
	}
}

// olderThan: t is made of symbols introduced before the n-th.
func olderThan(t *Term, n int) bool {
	for _, s := range symsOf([]*Term{t}) {
		if _, k, ok := strings.Cut(s.op, "!"); ok {
			if i, err := strconv.Atoi(k); err != nil || i > n {
				return false
			}
		}
	}
	return true
}

// comparisons visits the sides of the integer comparisons in t.
func comparisons(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case "and", "or", "not", "=>", "ite":
		for _, a := range t.args {
			if a.sort == SBool {
				comparisons(a, seen, f)
			}
		}
	case "<=", "<", "=":
		for _, a := range t.args {
			if a.sort != SInt {
				continue
			}
			f(a)
			if a.op == "+" {
				for _, b := range a.args {
					f(b)
				}
			}
		}
	}
}
