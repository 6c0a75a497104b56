package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	phis   []*ssa.Phi
	rounds string // ghost counter of the iterations so far, for loops that count nothing
}

type fnLoops struct {
	byHeader map[*ssa.BasicBlock]*loopT
}

func (x *Exec) loopsOf(f *ssa.Function) *fnLoops {
	if l, ok := x.loopInfo[f]; ok {
		return l
	}
	l := &fnLoops{byHeader: map[*ssa.BasicBlock]*loopT{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				// a retreating edge that is not a back edge would make the graph irreducible
				continue
			}
			lp := l.byHeader[s]
			if lp == nil {
				lp = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				for _, in := range s.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						lp.phis = append(lp.phis, p)
					}
				}
				l.byHeader[s] = lp
			}
			var add func(*ssa.BasicBlock)
			add = func(c *ssa.BasicBlock) {
				if lp.blocks[c] {
					return
				}
				lp.blocks[c] = true
				for _, p := range c.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	if x.fc.Opts["rounds"] != "" {
		for h, lp := range l.byHeader {
			counts := false
			for _, p := range lp.phis {
				counts = counts || isInt(p.Type())
			}
			for b := range lp.blocks {
				for _, in := range b.Instrs {
					_, next := in.(*ssa.Next)
					counts = counts || next
				}
			}
			if !counts {
				lp.rounds = fmt.Sprintf("G:_round_%s_%d", san(f.Name()), h.Index)
			}
		}
	}
	x.loopInfo[f] = l
	return l
}

// roundKey is where the count is kept; a function may be entered twice.
func (lp *loopT) roundKey(st *State) string {
	if lp.rounds == "" {
		return ""
	}
	return fmt.Sprintf("%s_%d", lp.rounds, len(st.frames))
}

// round counts an iteration that has come to its end.
func (lp *loopT) round(x *Exec, b *State) {
	if k := lp.roundKey(b); k != "" {
		b.heap[k] = Add(x.heap(b, k, SInt), One)
	}
}

// LoopRec is a loop being executed on a path.
type LoopRec struct {
	lp    *loopT
	depth int // number of frames when the loop was entered
	infer bool
	back  func(st *State, prev *ssa.BasicBlock)
	entry *State
}

// cand is one candidate invariant.
type cand struct {
	label string
	f     func(st *State, phi map[*ssa.Phi]Val) *Term
	alive bool
	named bool   // from a contract template
	hard  string // where to note that it took long to be dropped
}

// modSet is what a loop body changes.
type modSet struct {
	heaps map[string]Sort
	cells map[int]bool
	moved map[*ssa.Phi]bool // slices whose start moves along their backing object
	con   *conState
}

type backEdge struct {
	st   *State
	phis map[*ssa.Phi]Val
}

func (x *Exec) phiVals(st *State, lp *loopT, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	k := predIndex(lp.header, prev)
	m := map[*ssa.Phi]Val{}
	for _, p := range lp.phis {
		m[p] = x.val(st, p.Edges[k])
	}
	return m
}

// loop verifies a loop reached in state st through prev.
func (x *Exec) loop(st *State, lp *loopT, prev *ssa.BasicBlock) {
	entryPhis := x.phiVals(st, lp, prev)
	mod := &modSet{heaps: map[string]Sort{}, cells: map[int]bool{}, moved: map[*ssa.Phi]bool{}}
	if k := lp.roundKey(st); k != "" {
		st.heap[k] = Zero
		mod.heaps[k] = SInt
	}
	for round := 0; ; round++ {
		if round > 20 {
			fail("loop modification analysis does not settle")
		}
		for p := range mod.moved {
			if t, ok := entryPhis[p].(*Term); ok {
				entryPhis[p] = asSlice(t)
			}
		}
		hs, hphis := x.headerState(st, lp, entryPhis, mod)
		// scan: what does the body change?
		x.quiet++
		x.light++
		grew := false
		func() {
			defer func() {
				x.quiet--
				x.light--
			}()
			backs := x.bodyRun(hs, lp, nil, true)
			for _, b := range backs {
				if x.diff(hs, b.st, mod) || x.moves(hphis, b.phis, mod) {
					grew = true
				}
			}
		}()
		if grew {
			continue
		}
		if x.light > 0 {
			// an enclosing scan only needs the effects
			s := hs.clone()
			s.loops = append(s.loops, &LoopRec{lp: lp, depth: len(s.frames), entry: st, back: func(*State, *ssa.BasicBlock) {}})
			x.enterBody(s, lp, hphis)
			return
		}
		if x.infer(st, lp, entryPhis, hs, hphis, mod) {
			return
		}
	}
}

// headerState is an arbitrary state at the loop header: everything the loop
// changes is unknown.
func (x *Exec) headerState(st *State, lp *loopT, entry map[*ssa.Phi]Val, mod *modSet) (*State, map[*ssa.Phi]Val) {
	hs := st.clone()
	phis := map[*ssa.Phi]Val{}
	newAlloc := x.fresh(hs, "alloc", SInt)
	hs.assume(Le(hs.alloc, newAlloc))
	hs.alloc = newAlloc
	for _, p := range lp.phis {
		phis[p] = x.havocVal(hs, entry[p], p.Type(), p.Comment)
	}
	var ks []string
	for k := range mod.heaps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		hs.heap[k] = x.fresh(hs, "h_"+k, mod.heaps[k])
	}
	var cs []int
	for c := range mod.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		switch v := hs.cells[c].(type) {
		case cellVal:
			hs.cells[c] = cellVal{x.havocVal(hs, v.v, v.t, "cell"), v.t}
		case Iter:
			if v.str != nil {
				v.pos = x.fresh(hs, "pos", SInt)
				hs.assume(And(Le(Zero, v.pos), Le(v.pos, app("rcount", SInt, v.str))))
			} else {
				ms := mapSortsOf(v.mt)
				v.visited = x.fresh(hs, "visited", ArrSort(ms.k, SBool))
				v.cnt = x.fresh(hs, "cnt", SInt)
				hs.assume(And(Le(Zero, v.cnt), Le(v.cnt, Num(maxLen))))
				nd := x.fresh(hs, "startdom", ArrSort(ms.k, SBool))
				b := BVar("k", ms.k)
				hs.assume(Forall([]*Term{b}, Imp(Select(nd, b), Select(v.startDom, b)), []*Term{Select(nd, b)}))
				if x.iterDomStable(mod, ms) {
					nd = v.startDom
				} else {
					v.dirty = true
				}
				v.startDom = nd
			}
			hs.cells[c] = v
		}
	}
	for p, v := range phis {
		hs.top().env[p] = v
	}
	if hs.con != nil && mod.con != nil {
		held := hs.con.held
		hs.con = mod.con.clone()
		hs.con.held = held
	}
	return hs, phis
}

func (x *Exec) iterDomStable(mod *modSet, ms mapSorts) bool {
	k, _ := ms.dk()
	_, ch := mod.heaps[k]
	return !ch
}

// havocVal is an arbitrary value of type t; known functions stay known.
func (x *Exec) havocVal(st *State, like Val, t types.Type, name string) Val {
	if name == "" {
		name = "v"
	}
	switch v := like.(type) {
	case PCell, PField, PElem, PGlobal, *Clo:
		return x.fixedVal(v, t)
	case SliceV:
		s := SliceV{x.fresh(st, name+"_ref", SInt), x.fresh(st, name+"_off", SInt), x.fresh(st, name+"_len", SInt), x.fresh(st, name+"_cap", SInt)}
		st.assume(And(Le(Zero, s.ref), Lt(s.ref, st.alloc), Le(Zero, s.off), Le(Zero, s.len), Le(s.len, s.cap), Le(Add(s.off, s.cap), Num(maxLen)), Imp(Eq(s.ref, Zero), Eq(s.cap, Zero))))
		return s
	case IfaceV:
		return IfaceV{v.typ, x.havocVal(st, v.v, v.typ, name)}
	case ArrV:
		a := ArrV{elem: v.elem}
		for _, e := range v.elems {
			a.elems = append(a.elems, x.havocVal(st, e, v.elem, name))
		}
		return a
	case StructV:
		s := StructV{typ: v.typ}
		u := v.typ.Underlying().(*types.Struct)
		for i, f := range v.fields {
			s.fields = append(s.fields, x.havocVal(st, f, u.Field(i).Type(), name))
		}
		return s
	case Tup:
		fail("tuple carried around a loop")
	}
	if n, ok := t.Underlying().(*types.Tuple); ok {
		_ = n
		fail("tuple carried around a loop")
	}
	s := fieldSort(t)
	v := x.fresh(st, name, s)
	x.loadFacts(st, v, t)
	return v
}

// fixedVal: a Go-level value that must be the same on every iteration (checked at the back edges).
func (x *Exec) fixedVal(v Val, t types.Type) Val { return v }

// bodyRun executes one iteration from the header state and collects the states
// at the back edges.
func (x *Exec) bodyRun(hs *State, lp *loopT, cands []*cand, scan bool) []backEdge {
	s := hs.clone()
	var backs []backEdge
	hphis := x.curPhis(hs, lp)
	for _, c := range cands {
		if c.alive {
			s.assume(c.f(s, hphis))
		}
	}
	rec := &LoopRec{lp: lp, depth: len(s.frames), infer: true}
	rec.back = func(b *State, prev *ssa.BasicBlock) {
		b.loops = b.loops[:len(b.loops)-1]
		lp.round(x, b)
		backs = append(backs, backEdge{b, x.phiVals(b, lp, prev)})
	}
	s.loops = append(s.loops, rec)
	run := func() { x.enterBody(s, lp, hphis) }
	if scan {
		x.tryRun(run)
	} else {
		run()
	}
	return backs
}

// tryRun tolerates constructs out of reach on paths that may be infeasible;
// the effects of every feasible path are checked again afterwards.
func (x *Exec) tryRun(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if x.cfg.debug {
					fmt.Fprintln(os.Stderr, "scan gave up:", u.what)
				}
				return
			}
			panic(r)
		}
	}()
	f()
}

func (x *Exec) curPhis(hs *State, lp *loopT) map[*ssa.Phi]Val {
	m := map[*ssa.Phi]Val{}
	for _, p := range lp.phis {
		m[p] = hs.top().env[p]
	}
	return m
}

func (x *Exec) enterBody(s *State, lp *loopT, phis map[*ssa.Phi]Val) {
	for p, v := range phis {
		s.top().env[p] = v
	}
	x.instrs(s, lp.header, firstNonPhi(lp.header))
}

// diff adds to mod what b changed with respect to the header state.
func (x *Exec) diff(hs, b *State, mod *modSet) bool {
	grew := false
	for k, v := range b.heap {
		o, ok := hs.heap[k]
		if !ok {
			o = Sym("H0_"+san(k), v.sort)
		}
		if o != v {
			if _, known := mod.heaps[k]; !known {
				mod.heaps[k] = v.sort
				grew = true
			}
		}
	}
	for id, v := range b.cells {
		o, ok := hs.cells[id]
		if !ok {
			continue // local to the iteration
		}
		if !sameVal(o, v) && !mod.cells[id] {
			mod.cells[id] = true
			grew = true
		}
	}
	if b.con != nil && hs.con != nil && b.con.task == nil {
		if mod.con == nil {
			mod.con = hs.con.clone()
		}
		if mod.con.join(b.con, func(id int) bool { _, ok := hs.cells[id]; return ok }) {
			grew = true
		}
	}
	return grew
}

// moves records the slices that gained an offset in the body.
func (x *Exec) moves(h, b map[*ssa.Phi]Val, mod *modSet) bool {
	grew := false
	for p, v := range h {
		if _, ok := v.(*Term); !ok || mod.moved[p] {
			continue
		}
		if sv, ok := b[p].(SliceV); ok && sv.off != Zero {
			mod.moved[p] = true
			grew = true
		}
	}
	return grew
}

func sameVal(a, b Val) bool {
	switch v := a.(type) {
	case cellVal:
		w, ok := b.(cellVal)
		return ok && sameVal(v.v, w.v)
	case Iter:
		w, ok := b.(Iter)
		return ok && v == w
	case StructV:
		w, ok := b.(StructV)
		if !ok || len(v.fields) != len(w.fields) {
			return false
		}
		for i := range v.fields {
			if !sameVal(v.fields[i], w.fields[i]) {
				return false
			}
		}
		return true
	case ArrV:
		w, ok := b.(ArrV)
		if !ok || len(v.elems) != len(w.elems) {
			return false
		}
		for i := range v.elems {
			if !sameVal(v.elems[i], w.elems[i]) {
				return false
			}
		}
		return true
	case PCell:
		w, ok := b.(PCell)
		return ok && v.id == w.id && fmt.Sprint(v.path) == fmt.Sprint(w.path)
	case PElem:
		w, ok := b.(PElem)
		return ok && sameVal(v.sl, w.sl) && v.idx == w.idx && fmt.Sprint(v.path) == fmt.Sprint(w.path)
	case PField:
		w, ok := b.(PField)
		return ok && v.ref == w.ref && fmt.Sprint(v.path) == fmt.Sprint(w.path)
	case IfaceV:
		w, ok := b.(IfaceV)
		return ok && types.Identical(v.typ, w.typ) && sameVal(v.v, w.v)
	case *Clo:
		w, ok := b.(*Clo)
		if !ok || v.fn != w.fn || len(v.binds) != len(w.binds) {
			return false
		}
		for i := range v.binds {
			if !sameVal(v.binds[i], w.binds[i]) {
				return false
			}
		}
		return true
	case Tup:
		w, ok := b.(Tup)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !sameVal(v[i], w[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// infer finds the largest inductive subset of the candidate invariants, then
// runs the loop for real. It reports false if the modified set has grown.
func (x *Exec) infer(st *State, lp *loopT, entryPhis map[*ssa.Phi]Val, hs *State, hphis map[*ssa.Phi]Val, mod *modSet) bool {
	for p, v := range hphis {
		hs.top().env[p] = v
	}
	cands, ints, vars := x.candidates(st, lp, entryPhis, hs, hphis, mod)
	// what took long to drop when this loop was last looked at stays dropped
	// (a second attempt looks again)
	if x.cfg.boost <= 1 {
		where := fmt.Sprintf("%p", lp)
		for _, f := range hs.frames {
			where += fmt.Sprintf(" %p@%p", f.fn, f.site)
		}
		for _, c := range cands {
			c.hard = where + " " + c.label
			if x.hard[c.hard] {
				c.alive = false
			}
		}
	}
	// candidates that hold on entry
	es := st.clone()
	x.keep(es, entryPhis, cands)
	x.quiet++
	grew := false
	func() {
		defer func() { x.quiet-- }()
		for round := 0; round < 60; round++ {
			backs := x.bodyRun(hs, lp, cands, false)
			for _, b := range backs {
				if x.diff(hs, b.st, mod) || x.moves(hphis, b.phis, mod) {
					grew = true
					return
				}
			}
			if !x.keepAll(backs, cands) {
				return
			}
		}
		fail("invariant inference does not settle")
	}()
	if grew {
		return false
	}
	if x.cfg.debug && x.quiet == 0 {
		fmt.Fprintf(os.Stderr, "loop %s %s: modifies %v\n", lp.header, x.fc.Name, modList(mod))
		for _, c := range cands {
			if c.alive {
				fmt.Fprintf(os.Stderr, "   keeps %s\n", c.label)
			} else if c.named {
				fmt.Fprintf(os.Stderr, "   drops %s\n", c.label)
			}
		}
	}
	// final: the surviving invariants are obligations
	for _, c := range cands {
		if c.alive {
			x.obligT(es, "inv-entry", c.label, c.f(es, entryPhis), lp.header.Instrs[len(lp.header.Instrs)-1], nil)
		}
	}
	fs := hs.clone()
	for _, c := range cands {
		if c.alive {
			fs.assume(c.f(fs, hphis))
		}
	}
	x.cover(fs, "loop", lp.header)
	var ends []backEdge
	rec := &LoopRec{lp: lp, depth: len(fs.frames), entry: st}
	rec.back = func(b *State, prev *ssa.BasicBlock) {
		lp.round(x, b)
		phis := x.phiVals(b, lp, prev)
		m2 := &modSet{heaps: map[string]Sort{}, cells: map[int]bool{}}
		if mod.con != nil {
			m2.con = mod.con.clone()
		}
		for k, v := range mod.heaps {
			m2.heaps[k] = v
		}
		for k := range mod.cells {
			m2.cells[k] = true
		}
		if x.diff(hs, b, m2) {
			fail("loop changes more than its analysis found")
		}
		x.checkFixed(hphis, phis, hs, b)
		for _, c := range cands {
			if c.alive {
				x.obligT(b, "inv-preserved", c.label, c.f(b, phis), lp.header.Instrs[len(lp.header.Instrs)-1], nil)
			}
		}
		x.loopConCheck(hs, b)
		ends = append(ends, backEdge{b, phis})
	}
	fs.loops = append(fs.loops, rec)
	x.enterBody(fs, lp, hphis)
	x.variant(st, lp, hs, hphis, ints, vars, ends)
	return true
}

func (x *Exec) checkFixed(h, b map[*ssa.Phi]Val, hs, bs *State) {
	for p, v := range h {
		w := b[p]
		switch v.(type) {
		case PCell, PField, PElem, PGlobal, *Clo:
			if !sameVal(v, w) {
				fail("pointer %s changes around a loop", p.Comment)
			}
		case SliceV:
			if _, ok := w.(*Term); ok && w.(*Term).sort == SSlice {
				continue
			}
		case *Term:
			if _, ok := w.(*Term); !ok {
				if sv, ok := w.(SliceV); ok && sv.off != Zero {
					fail("slice %s gains an offset around a loop", p.Comment)
				}
			}
		}
	}
}

func modList(m *modSet) []string {
	var s []string
	for k := range m.heaps {
		s = append(s, k)
	}
	for c := range m.cells {
		s = append(s, fmt.Sprintf("cell%d", c))
	}
	sort.Strings(s)
	return s
}

// keep drops candidates not provable in st; it reports whether any was dropped.
func (x *Exec) keep(st *State, phis map[*ssa.Phi]Val, cands []*cand) bool {
	dropped := false
	for x.keepAll([]backEdge{{st, phis}}, cands) {
		dropped = true
	}
	return dropped
}

// keepAll drops candidates not provable at every one of the given states.
func (x *Exec) keepAll(backs []backEdge, cands []*cand) bool {
	dropped := false
	type job struct {
		pc    []*Term
		goals []*Term
		idx   []int
		rl    int64
		res   []Verdict
	}
	var jobs []*job
	for _, b := range backs {
		if b.st.dead {
			continue
		}
		auto := &job{pc: b.st.pc, rl: 800_000 * x.boost()}
		named := &job{pc: b.st.pc, rl: 3_000_000 * x.boost()}
		for i, c := range cands {
			if !c.alive {
				continue
			}
			g := c.f(b.st, b.phis)
			if g == nil {
				c.alive = false
				dropped = true
				continue
			}
			j := auto
			if c.named {
				j = named
			}
			j.goals = append(j.goals, g)
			j.idx = append(j.idx, i)
		}
		jobs = append(jobs, auto, named)
	}
	var wg sync.WaitGroup
	if x.cfg.debug {
		t0 := time.Now()
		defer func() {
			var s []string
			for _, j := range jobs {
				n := map[Verdict]int{}
				for _, v := range j.res {
					n[v]++
				}
				s = append(s, fmt.Sprint(n))
			}
			fmt.Fprintln(os.Stderr, "   round", time.Since(t0), s)
		}()
	}
	for _, j := range jobs {
		j := j
		if len(j.goals) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			j.res = x.prove(j.pc, j.goals, j.rl)
		}()
	}
	wg.Wait()
	// While some clearly fail, those that only ran out of resources wait: with
	// fewer assumptions they may fail, too.
	for _, j := range jobs {
		for k, v := range j.res {
			if v != Proved && v != Limited && cands[j.idx[k]].alive {
				cands[j.idx[k]].alive = false
				dropped = true
			}
		}
	}
	if dropped {
		return true
	}
	// those that only ran out of resources get more, each on its own
	for _, j := range jobs {
		j := j
		var g []*Term
		var at []int
		for k, v := range j.res {
			if v == Limited && cands[j.idx[k]].alive {
				g = append(g, j.goals[k])
				at = append(at, k)
			}
		}
		if len(g) == 0 {
			continue
		}
		if j.rl == 800_000*x.boost() {
			// arithmetic that fails without the quantified facts is given up
			var bare []*Term
			for _, t := range j.pc {
				if !hasQuant(t) {
					bare = append(bare, t)
				}
			}
			res := x.pool.Prove(Query{preamble: x.preamble(), assume: bare, goals: g, rlimit: 400_000})
			var g2 []*Term
			var at2 []int
			for i, v := range res {
				if v == Proved {
					j.res[at[i]] = Proved
				} else if v != Refuted || hasQuant(g[i]) {
					g2, at2 = append(g2, g[i]), append(at2, at[i])
				}
			}
			g, at = g2, at2
		}
		for i := range g {
			i := i
			if x.cfg.debug {
				fmt.Fprintln(os.Stderr, "   again", cands[j.idx[at[i]]].label)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				j.res[at[i]] = x.prove(j.pc, g[i:i+1], 4*j.rl)[0]
			}()
		}
	}
	wg.Wait()
	for _, j := range jobs {
		for k, v := range j.res {
			if d := os.Getenv("GVC_DROP"); d != "" && v != Proved && strings.HasPrefix(cands[j.idx[k]].label, d) && x.light == 0 {
				ex := x.ct.Theory.extra(append(append([]*Term{}, j.pc...), j.goals[k]), x.p, nil)
				fmt.Fprintln(os.Stderr, "DROP", cands[j.idx[k]].label, v)
				dropN++
				os.WriteFile(fmt.Sprintf("/tmp/drop%d.smt2", dropN), []byte(Query{preamble: x.preamble(), assume: append(append([]*Term{}, j.pc...), ex...), goals: []*Term{j.goals[k]}}.text()), 0o644)
			}
			if c := cands[j.idx[k]]; v != Proved && c.alive {
				c.alive = false
				dropped = true
				if c.hard != "" {
					x.hard[c.hard] = true
				}
			}
		}
	}
	return dropped
}

func (x *Exec) prove(assume, goals []*Term, rl int64) []Verdict {
	all := append(append([]*Term{}, assume...), goals...)
	ex := x.ct.Theory.extra(all, x.p, nil)
	return x.pool.Prove(Query{preamble: x.preamble(), assume: append(append([]*Term{}, assume...), ex...), goals: goals, rlimit: rl})
}

func (x *Exec) axioms(ts []*Term) []*Term {
	return append(ts, x.ct.Theory.extra(ts, x.p, nil)...)
}

// hasQuant: t has a quantifier.
func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if len(t.bound) > 0 {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

var dropN int

// ---- candidates ----

type named struct {
	name string
	v    func(st *State, phi map[*ssa.Phi]Val) Val
	t    types.Type
	isI  bool
	made bool // computed by the code, not handed in by a caller or an unknown function
}

func made(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return false
	case *ssa.Call:
		return v.Call.StaticCallee() != nil
	}
	return true
}

func (x *Exec) candidates(st *State, lp *loopT, entryPhis map[*ssa.Phi]Val, hs *State, hphis map[*ssa.Phi]Val, mod *modSet) (out []*cand, ints, vars []named) {
	add := func(label string, nm bool, f func(st *State, phi map[*ssa.Phi]Val) *Term) {
		t := f(hs, hphis)
		if t == nil || t == True {
			return
		}
		out = append(out, &cand{label: label, f: f, alive: true, named: nm})
	}
	// loop-carried values
	var others []named
	for _, p := range lp.phis {
		p := p
		get := func(_ *State, phi map[*ssa.Phi]Val) Val { return phi[p] }
		n := named{p.Comment + "." + p.Name(), get, p.Type(), false, true}
		vars = append(vars, n)
		if isInt(p.Type()) {
			ints = append(ints, n)
		}
		if mod.moved[p] {
			off := func(_ *State, phi map[*ssa.Phi]Val) Val { return asSlice(phi[p]).off }
			ints = append(ints, named{"off(" + n.name + ")", off, types.Typ[types.Int], false, true})
		}
	}
	if k := lp.roundKey(hs); k != "" {
		ints = append(ints, named{"round", func(st *State, _ map[*ssa.Phi]Val) Val { return x.heap(st, k, SInt) }, types.Typ[types.Int], false, true})
	}
	var cs []int
	for c := range mod.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		c := c
		switch v := hs.cells[c].(type) {
		case cellVal:
			n := named{fmt.Sprintf("cell%d", c), func(st *State, _ map[*ssa.Phi]Val) Val { return st.cells[c].(cellVal).v }, v.t, false, true}
			vars = append(vars, n)
			if isInt(v.t) {
				ints = append(ints, n)
			}
		case Iter:
			if v.str != nil {
				ints = append(ints, named{fmt.Sprintf("pos%d", c), func(st *State, _ map[*ssa.Phi]Val) Val { return st.cells[c].(Iter).pos }, types.Typ[types.Int], true, true})
			} else {
				ints = append(ints, named{fmt.Sprintf("cnt%d", c), func(st *State, _ map[*ssa.Phi]Val) Val { return st.cells[c].(Iter).cnt }, types.Typ[types.Int], true, true})
			}
		}
	}
	// values of the surrounding code, by frame
	seenT := map[string]bool{}
	taken := map[string]bool{}
	for fi, fr := range st.frames {
		var vs []ssa.Value
		for v := range fr.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			if vs[i].Name() != vs[j].Name() {
				return natLess(vs[i].Name(), vs[j].Name())
			}
			return vs[i].Parent().String() < vs[j].Parent().String()
		})
		for _, v := range vs {
			if p, ok := v.(*ssa.Phi); ok && fi == len(st.frames)-1 {
				if _, mine := hphis[p]; mine {
					continue
				}
			}
			cur := fr.env[v]
			switch cur.(type) {
			case *Term, SliceV, StructV, IfaceV:
			default:
				continue
			}
			if v.Type() == nil {
				continue
			}
			if _, isT := v.Type().Underlying().(*types.Tuple); isT {
				continue
			}
			key := fmt.Sprintf("%v|%s", cur, v.Type())
			if t, ok := cur.(*Term); ok {
				key = fmt.Sprintf("%d|%s", t.id, v.Type())
			}
			if seenT[key] {
				continue
			}
			seenT[key] = true
			nm := v.Name()
			if taken[nm] {
				nm = fmt.Sprintf("%s^%d", nm, fi)
			}
			taken[nm] = true
			n := named{nm, func(*State, map[*ssa.Phi]Val) Val { return cur }, v.Type(), false, made(v)}
			others = append(others, n)
		}
	}
	// fields of loop-carried structs, and of objects in scope the loop changes
	for _, c := range cs {
		c := c
		v, ok := hs.cells[c].(cellVal)
		if !ok {
			continue
		}
		u, ok := v.t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			i := i
			n := named{fmt.Sprintf("cell%d.%s", c, u.Field(i).Name()), func(st *State, _ map[*ssa.Phi]Val) Val { return x.fieldOf(st.cells[c].(cellVal).v, i) }, u.Field(i).Type(), false, true}
			vars = append(vars, n)
			if isInt(n.t) {
				ints = append(ints, n)
			}
		}
	}
	for _, o := range others {
		pt, ok := o.t.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		u, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ref, ok := o.v(hs, nil).(*Term)
		if !ok {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if _, sl := ft.Underlying().(*types.Slice); !sl && !isInt(ft) {
				continue
			}
			k, srt := fieldKey(pt.Elem(), i)
			if _, ch := mod.heaps[k]; !ch {
				continue
			}
			n := named{o.name + "." + u.Field(i).Name(), func(s *State, _ map[*ssa.Phi]Val) Val { return Select(heapOf(s.heap, k, srt), ref) }, ft, false, true}
			vars = append(vars, n)
			if isInt(ft) {
				ints = append(ints, n)
			}
		}
	}
	// enclosing loops' counters and iterators
	var outerInts []named
	for fi, fr := range st.frames {
		_ = fi
		for v, cur := range fr.env {
			p, ok := v.(*ssa.Phi)
			if !ok || !isInt(p.Type()) {
				continue
			}
			if _, mine := hphis[p]; mine && fr == st.top() {
				continue
			}
			inLoop := false
			for _, l := range st.loops {
				if l.lp.header == p.Block() {
					inLoop = true
				}
			}
			if !inLoop {
				continue
			}
			cur := cur
			outerInts = append(outerInts, named{p.Comment + "." + p.Name(), func(*State, map[*ssa.Phi]Val) Val { return cur }, p.Type(), false, true})
		}
	}
	sort.Slice(outerInts, func(i, j int) bool { return outerInts[i].name < outerInts[j].name })

	x.autoCands(st, lp, entryPhis, hs, hphis, mod, ints, vars, append(x.readFields(st, lp, hs, mod, others), others...), add)
	x.templateCands(st, entryPhis, hs, hphis, mod, ints, outerInts, vars, others, add)
	return out, ints, vars
}

// readFields: slices and integers in fields that the loop reads and leaves alone.
func (x *Exec) readFields(st *State, lp *loopT, hs *State, mod *modSet, others []named) []named {
	type rf struct {
		t types.Type
		i int
	}
	var reads []rf
	seen := map[string]bool{}
	note := func(t types.Type, i int) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		ft := u.Field(i).Type()
		if _, sl := ft.Underlying().(*types.Slice); !sl && !isInt(ft) {
			return
		}
		if k := fmt.Sprintf("%s %d", t, i); !seen[k] {
			seen[k] = true
			reads = append(reads, rf{t, i})
		}
	}
	for _, b := range lp.header.Parent().Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				note(in.X.Type(), in.Field)
			case *ssa.Field:
				note(in.X.Type(), in.Field)
			}
		}
	}
	var out []named
	for _, r := range reads {
		ft := r.t.Underlying().(*types.Struct).Field(r.i).Type()
		put := func(name string, v Val) {
			if v == nil {
				return
			}
			out = append(out, named{name + "." + r.t.Underlying().(*types.Struct).Field(r.i).Name(), func(*State, map[*ssa.Phi]Val) Val { return v }, ft, false, true})
		}
		for _, o := range others {
			if types.Identical(o.t, r.t) {
				put(o.name, x.fieldOf(o.v(hs, nil), r.i))
			}
			if p, ok := o.t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), r.t) {
				ref, ok := o.v(hs, nil).(*Term)
				if !ok {
					continue
				}
				k, srt := fieldKey(r.t, r.i)
				if _, ch := mod.heaps[k]; !ch {
					v := Select(heapOf(hs.heap, k, srt), ref)
					x.loadFacts(hs, v, ft)
					x.loadFacts(st, Select(heapOf(st.heap, k, srt), ref), ft)
					put(o.name, v)
				}
			}
		}
		var cs []int
		for c := range hs.cells {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		for _, c := range cs {
			if cv, ok := hs.cells[c].(cellVal); ok && types.Identical(cv.t, r.t) {
				if _, ch := mod.cells[c]; !ch {
					put(fmt.Sprintf("cell%d", c), x.fieldOf(cv.v, r.i))
				}
			}
		}
	}
	return out
}

func natLess(a, b string) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	return a < b
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) autoCands(st *State, lp *loopT, entryPhis map[*ssa.Phi]Val, hs *State, hphis map[*ssa.Phi]Val, mod *modSet, ints, vars, others []named, add func(string, bool, func(*State, map[*ssa.Phi]Val) *Term)) {
	tm := func(n named) func(*State, map[*ssa.Phi]Val) *Term {
		return func(s *State, p map[*ssa.Phi]Val) *Term {
			t, _ := n.v(s, p).(*Term)
			return t
		}
	}
	old0, a0 := x.oldOf(st)
	// bounds of counters
	var lens []named
	for _, o := range append(append([]named{}, others...), vars...) {
		o := o
		if _, ok := o.t.Underlying().(*types.Slice); ok {
			lens = append(lens, named{"len(" + o.name + ")", func(s *State, p map[*ssa.Phi]Val) Val {
				v := o.v(s, p)
				if v == nil {
					return nil
				}
				return asSlice(v).len
			}, types.Typ[types.Int], false, true})
		}
		if isInt(o.t) {
			lens = append(lens, o)
		}
	}
	if len(lens) > 24 {
		lens = lens[:24]
	}
	for _, l := range x.fc.Lets {
		if t, ok := x.envOf(st)[l.Label].v.(*Term); ok && t.sort == SInt {
			lens = append(lens, named{l.Label, func(*State, map[*ssa.Phi]Val) Val { return t }, types.Typ[types.Int], false, true})
		}
	}
	for _, i := range ints {
		ti := tm(i)
		for _, k := range []int64{-1, 0, 1} {
			k := k
			add(fmt.Sprintf("%d<=%s", k, i.name), false, func(s *State, p map[*ssa.Phi]Val) *Term { return Le(Num(k), ti(s, p)) })
		}
		e, _ := i.v(st, entryPhis).(*Term)
		if e != nil {
			add(fmt.Sprintf("entry<=%s", i.name), false, func(s *State, p map[*ssa.Phi]Val) *Term { return Le(e, ti(s, p)) })
			add(fmt.Sprintf("%s<=entry", i.name), false, func(s *State, p map[*ssa.Phi]Val) *Term { return Le(ti(s, p), e) })
		}
		for _, l := range lens {
			tl := tm(l)
			if l.name == i.name {
				continue
			}
			add(i.name+"<="+l.name, false, func(s *State, p map[*ssa.Phi]Val) *Term { return Le(ti(s, p), tl(s, p)) })
			if e != nil {
				if n, ok := e.num(); ok && n > 0 {
					add(i.name+"<=max(entry,"+l.name+")", false, func(s *State, p map[*ssa.Phi]Val) *Term { return Or(Le(ti(s, p), e), Le(ti(s, p), tl(s, p))) })
				}
			}
			add(i.name+"<"+l.name, false, func(s *State, p map[*ssa.Phi]Val) *Term { return Lt(ti(s, p), tl(s, p)) })
		}
		for _, j := range ints {
			tj := tm(j)
			if i.name == j.name {
				continue
			}
			for _, k := range []int64{0, 1} {
				k := k
				add(fmt.Sprintf("%s<=%s+%d", i.name, j.name, k), false, func(s *State, p map[*ssa.Phi]Val) *Term { return Le(ti(s, p), Add(tj(s, p), Num(k))) })
			}
		}
	}
	// loop-carried slices: growth, freshness, stability
	for _, v := range vars {
		v := v
		if _, ok := v.t.Underlying().(*types.Slice); !ok {
			continue
		}
		sl := func(s *State, p map[*ssa.Phi]Val) (SliceV, bool) {
			w := v.v(s, p)
			if w == nil {
				return SliceV{}, false
			}
			return asSlice(w), true
		}
		ev, ok := sl(st, entryPhis)
		if !ok {
			continue
		}
		add("fresh "+v.name, false, func(s *State, p map[*ssa.Phi]Val) *Term {
			w, _ := sl(s, p)
			return Or(Eq(w.ref, Zero), Le(a0, w.ref))
		})
		add("fresh-entry "+v.name, false, func(s *State, p map[*ssa.Phi]Val) *Term {
			w, _ := sl(s, p)
			return Or(Eq(w.ref, Zero), Eq(w.ref, ev.ref), Le(st.alloc, w.ref))
		})
		add("ref-kept "+v.name, false, func(s *State, p map[*ssa.Phi]Val) *Term {
			w, _ := sl(s, p)
			return And(Eq(w.ref, ev.ref), Eq(w.cap, ev.cap))
		})
		add("suffix "+v.name, false, func(s *State, p map[*ssa.Phi]Val) *Term {
			w, _ := sl(s, p)
			return And(Eq(w.ref, ev.ref), Eq(Add(w.off, w.len), Add(ev.off, ev.len)), Eq(Add(w.off, w.cap), Add(ev.off, ev.cap)))
		})
		add("len-kept "+v.name, false, func(s *State, p map[*ssa.Phi]Val) *Term {
			w, _ := sl(s, p)
			return Eq(w.len, ev.len)
		})
		add("notnil "+v.name, false, func(s *State, p map[*ssa.Phi]Val) *Term {
			w, _ := sl(s, p)
			return Not(Eq(w.ref, Zero))
		})
		add("nil-iff-empty "+v.name, false, func(s *State, p map[*ssa.Phi]Val) *Term {
			w, _ := sl(s, p)
			return Eq(Eq(w.ref, Zero), Eq(w.len, Zero))
		})
		for _, i := range ints {
			ti := tm(i)
			for _, k := range []int64{0, 1} {
				k := k
				add(fmt.Sprintf("len(%s)=%s+%d", v.name, i.name, k), false, func(s *State, p map[*ssa.Phi]Val) *Term {
					w, _ := sl(s, p)
					return Eq(w.len, Add(ti(s, p), Num(k)))
				})
				add(fmt.Sprintf("len(%s)<=%s+%d", v.name, i.name, k), false, func(s *State, p map[*ssa.Phi]Val) *Term {
					w, _ := sl(s, p)
					return Le(w.len, Add(ti(s, p), Num(k)))
				})
			}
		}
	}
	// frames
	var ks []string
	for k := range mod.heaps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		hsrt := mod.heaps[k]
		if !hsrt.isArr() {
			continue
		}
		ix, _ := hsrt.parts()
		if ix != SInt {
			continue
		}
		e := heapOf(st.heap, k, hsrt)
		e0 := heapOf(old0.heap, k, hsrt)
		r := BVar("r", SInt)
		add("frame-entry "+k, false, func(s *State, _ map[*ssa.Phi]Val) *Term {
			cur := heapOf(s.heap, k, hsrt)
			return Forall([]*Term{r}, Imp(Lt(r, st.alloc), Eq(Select(cur, r), Select(e, r))), []*Term{app("select", Select(cur, r).sort, cur, r)})
		})
		add("frame-old "+k, false, func(s *State, _ map[*ssa.Phi]Val) *Term {
			cur := heapOf(s.heap, k, hsrt)
			return Forall([]*Term{r}, Imp(Lt(r, a0), Eq(Select(cur, r), Select(e0, r))), []*Term{app("select", Select(cur, r).sort, cur, r)})
		})
		if x.fc.HasFrame && len(x.fc.Modifies) > 0 {
			ts := x.frameTargets(st, x.envOf(st))
			add("frame-contract "+k, false, func(s *State, _ map[*ssa.Phi]Val) *Term {
				cur := heapOf(s.heap, k, hsrt)
				var or []*Term
				for _, t := range ts {
					if t.key == k && t.has == nil {
						return nil
					}
					if t.key == k {
						or = append(or, t.has(r))
					}
				}
				if len(or) == 0 {
					return nil
				}
				return Forall([]*Term{r}, Imp(And(frameLow(k, r), Lt(r, a0), Not(Or(or...))), Eq(Select(cur, r), Select(e0, r))), []*Term{app("select", Select(cur, r).sort, cur, r)})
			})
		}
		// everything but the objects behind the loop's own slices is unchanged
		for _, v := range vars {
			v := v
			if u, ok := v.t.Underlying().(*types.Slice); ok && sliceKey(sortOf(u.Elem())) == k {
				ev0 := v.v(st, entryPhis)
				if ev0 == nil {
					continue
				}
				er := asSlice(ev0).ref
				add("frame-but "+v.name+" "+k, false, func(s *State, p map[*ssa.Phi]Val) *Term {
					cur := heapOf(s.heap, k, hsrt)
					return Forall([]*Term{r}, Imp(And(Lt(r, st.alloc), Not(Eq(r, er))), Eq(Select(cur, r), Select(e, r))), []*Term{app("select", Select(cur, r).sort, cur, r)})
				})
			}
		}
	}
	// everything but the objects behind the slices it stores into is unchanged
	stored := map[*Term]bool{}
	for _, b := range lp.header.Parent().Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			w, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := w.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			u, ok := a.X.Type().Underlying().(*types.Slice)
			v, known := st.top().env[a.X]
			if !ok || !known {
				continue
			}
			k := sliceKey(sortOf(u.Elem()))
			hsrt, changed := mod.heaps[k]
			er := asSlice(v).ref
			if !changed || stored[er] {
				continue
			}
			stored[er] = true
			e := heapOf(st.heap, k, hsrt)
			r := BVar("r", SInt)
			add("frame-but "+a.X.Name()+" "+k, false, func(s *State, p map[*ssa.Phi]Val) *Term {
				cur := heapOf(s.heap, k, hsrt)
				return Forall([]*Term{r}, Imp(And(Lt(r, st.alloc), Not(Eq(r, er))), Eq(Select(cur, r), Select(e, r))), []*Term{app("select", Select(cur, r).sort, cur, r)})
			})
		}
	}
	// map iterators
	for c := range mod.cells {
		c := c
		it, ok := hs.cells[c].(Iter)
		if !ok || it.ref == nil {
			continue
		}
		ms := mapSortsOf(it.mt)
		b := BVar("k", ms.k)
		add("visited-start", false, func(s *State, _ map[*ssa.Phi]Val) *Term {
			i := s.cells[c].(Iter)
			d0 := st.cells[c].(Iter).startDom
			return Forall([]*Term{b}, Imp(Select(i.visited, b), Select(d0, b)), []*Term{Select(i.visited, b)})
		})
		add("left-start", false, func(s *State, _ map[*ssa.Phi]Val) *Term {
			i := s.cells[c].(Iter)
			d0 := st.cells[c].(Iter).startDom
			if i.startDom == d0 {
				return True
			}
			d := ms.dom(s.heap, i.ref)
			return Forall([]*Term{b}, Imp(And(Select(d, b), Select(d0, b)), Select(i.startDom, b)), []*Term{Select(d, b)}, []*Term{Select(i.startDom, b)})
		})
	}
	if x.ct != nil {
		x.conCands(st, hs, mod, ints, add)
	}
}

// templateCands instantiates the contract's templates.
func (x *Exec) templateCands(st *State, entryPhis map[*ssa.Phi]Val, hs *State, hphis map[*ssa.Phi]Val, mod *modSet, ints, outerInts, vars, others []named, add func(string, bool, func(*State, map[*ssa.Phi]Val) *Term)) {
	const limit = 4000
	at := st.snap()
	for _, iv := range x.fc.Invs {
		iv := iv
		count := 0
		var rec func(k int, env []boundVar)
		rec = func(k int, env []boundVar) {
			if count > limit {
				return
			}
			if k == len(iv.Vars) {
				var names []string
				touches := len(iv.Vars) == 0
				for _, b := range env {
					names = append(names, b.label)
					touches = touches || b.varying
				}
				if !touches {
					return
				}
				count++
				f := func(s *State, p map[*ssa.Phi]Val) *Term {
					m := map[string]DV{}
					for k, v := range x.envOf(s) {
						m[k] = v
					}
					for _, b := range env {
						v := b.get(s, p)
						if v == nil {
							return nil
						}
						m[b.name] = DV{v, b.t}
					}
					c := x.ctx(s, m)
					c.loop, c.loopEnv = at, map[string]DV{}
					for _, b := range env {
						if v := b.get(st, entryPhis); v != nil {
							c.loopEnv[b.name] = DV{v, b.t}
						}
					}
					t, err := c.evalBool(iv.Expr)
					if err != nil {
						if x.cfg.debug {
							fmt.Println("  ", iv.Label, err)
						}
						return nil
					}
					return t
				}
				add(iv.Label+"("+strings.Join(names, ",")+")", true, f)
				return
			}
			for _, b := range x.choices(iv.Vars[k], st, hs, mod, ints, outerInts, vars, others) {
				dup := false
				for i, o := range env {
					dup = dup || o.label == b.label && iv.Vars[i].Kind != "idx" && iv.Vars[k].Kind != "idx"
				}
				if dup {
					continue
				}
				rec(k+1, append(env[:len(env):len(env)], b))
			}
		}
		rec(0, nil)
	}
}

type boundVar struct {
	name, label string
	t           types.Type
	varying     bool
	get         func(*State, map[*ssa.Phi]Val) Val
}

// choices are the values a template variable may stand for.
//
//	idx        loop counters (phi, +1, +2), of this and of enclosing loops
//	pos        how far the loop counters have come: a range loop's plus one, others as they are
//	round      how often this loop has started over (opt rounds)
//	phi T      loop-carried values of type T
//	made T     values of type T in scope that the code computed itself
//	any T      all values of type T in scope
//	it         map iterators: the set of visited keys
func (x *Exec) choices(v InvVar, st, hs *State, mod *modSet, ints, outerInts, vars, others []named) []boundVar {
	var out []boundVar
	var want types.Type
	if v.Type != "" {
		c := &evalCtx{p: x.p, ct: x.ct}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(evalErr); !ok {
						panic(r)
					}
				}
			}()
			want = c.goType(v.Type)
		}()
		if want == nil {
			return nil
		}
	}
	from := func(ns []named, varying bool) {
		for _, n := range ns {
			n := n
			if want != nil && !alike(n.t, want) {
				continue
			}
			t := want
			if t == nil {
				t = n.t
			}
			out = append(out, boundVar{v.Name, n.name, t, varying, n.v})
		}
	}
	switch v.Kind {
	case "pos":
		for _, set := range [][]named{ints, outerInts} {
			for _, n := range set {
				n := n
				k := int64(0)
				if strings.HasPrefix(n.name, "rangeindex") {
					k = 1
				}
				out = append(out, boundVar{v.Name, fmt.Sprintf("%s+%d", n.name, k), types.Typ[types.Int], true, func(s *State, p map[*ssa.Phi]Val) Val {
					t, ok := n.v(s, p).(*Term)
					if !ok {
						return nil
					}
					return Add(t, Num(k))
				}})
			}
		}
	case "idx":
		shifted := int64(0) // the loop may run over a slice without its first element
		for _, o := range others {
			if sv, ok := o.v(hs, nil).(SliceV); ok && sv.off == One {
				shifted = 1
			}
		}
		for _, set := range [][]named{ints, outerInts} {
			for _, n := range set {
				n := n
				top := 1 + shifted
				if n.isI {
					top = 0
				}
				for k := int64(0); k <= top; k++ {
					k := k
					out = append(out, boundVar{v.Name, fmt.Sprintf("%s+%d", n.name, k), types.Typ[types.Int], true, func(s *State, p map[*ssa.Phi]Val) Val {
						t, ok := n.v(s, p).(*Term)
						if !ok {
							return nil
						}
						return Add(t, Num(k))
					}})
				}
			}
		}
	case "round":
		for _, n := range ints {
			if n.name == "round" {
				out = append(out, boundVar{v.Name, "round", n.t, true, n.v})
			}
		}
	case "made":
		for _, n := range others {
			if n.made {
				from([]named{n}, false)
			}
		}
	case "phi":
		from(vars, true)
	case "any":
		from(vars, true)
		from(others, false)
	case "env":
		from(others, false)
	case "it":
		var cs []int
		for c := range mod.cells {
			if it, ok := hs.cells[c].(Iter); ok && it.ref != nil {
				cs = append(cs, c)
			}
		}
		for c, cv := range hs.cells {
			if it, ok := cv.(Iter); ok && it.ref != nil && !mod.cells[c] {
				cs = append(cs, c)
			}
		}
		sort.Ints(cs)
		for _, c := range cs {
			c := c
			it := hs.cells[c].(Iter)
			if want != nil && !types.Identical(it.mt.Underlying(), want.Underlying()) {
				continue
			}
			out = append(out, boundVar{v.Name, fmt.Sprintf("it%d", c), nil, true, func(s *State, p map[*ssa.Phi]Val) Val {
				return s.cells[c].(Iter).visited
			}})
		}
	}
	return out
}

// alike: the same but for names given to slice types.
func alike(a, b types.Type) bool {
	if types.Identical(a.Underlying(), b.Underlying()) {
		return true
	}
	s, ok := a.Underlying().(*types.Slice)
	t, ok2 := b.Underlying().(*types.Slice)
	return ok && ok2 && alike(s.Elem(), t.Elem())
}

func (x *Exec) boost() int64 {
	if x.cfg.boost <= 1 {
		return 1
	}
	return 6
}
