package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"
)

var customSorts = map[string]bool{}

// Theory holds the mathematical functions contracts are written with: declared
// functions, functions defined by recursion, axioms about library functions
// and lemmas proved by induction on every run.
type Theory struct {
	mu    sync.Mutex
	big   sync.Mutex
	funs  map[string]*thFun
	facts []*thFact
	ct    *Contracts
	p     *Program
	inst  map[string]*thInst // instantiated functions by SMT name
	elems map[string]map[Sort]bool
	done  map[string]*factInst
}

type thParam struct{ name, sort string }

type thFun struct {
	name    string
	generic bool
	params  []thParam
	ret     string
	rec     bool
	on      int // index of the parameter recursed on
	base    ast.Expr
	step    ast.Expr
	where   string
}

type thFact struct {
	name    string
	lemma   bool
	generic bool
	params  []thParam
	on      string // induction variable, "" for a direct proof
	pats    []ast.Expr
	expr    ast.Expr
	uses    []string // lemmas the proof may use
	where   string
}

type thInst struct {
	f    *thFun
	elem Sort
	name string
	ret  Sort
	args []Sort
}

type factInst struct {
	f      *thFact
	elem   Sort
	term   *Term // quantified
	funcs  []string
	params []*Term
	body   *Term
}

func newTheory() *Theory {
	return &Theory{funs: map[string]*thFun{}, inst: map[string]*thInst{}, done: map[string]*factInst{}}
}

var funRe = regexp.MustCompile(`^(\w+)(\[E\])?\s*\(`)

func (t *Theory) parse(kw, rest, where string) {
	if kw == "sort" {
		customSorts[strings.TrimSpace(rest)] = true
		return
	}
	m := funRe.FindStringSubmatch(rest)
	if m == nil {
		panic(where + ": bad declaration")
	}
	name, gen := m[1], m[2] != ""
	p := strings.Index(rest, "(")
	q := matchParen(rest, p)
	var ps []thParam
	for _, s := range splitTop(rest[p+1 : q]) {
		n, so, _ := strings.Cut(s, " ")
		ps = append(ps, thParam{n, strings.TrimSpace(so)})
	}
	tail := strings.TrimSpace(rest[q+1:])
	switch kw {
	case "fun":
		t.funs[name] = &thFun{name: name, generic: gen, params: ps, ret: tail, where: where}
	case "rec":
		// Ret on n: base ; step
		i := strings.Index(tail, " on ")
		ret := strings.TrimSpace(tail[:i])
		v, body, _ := strings.Cut(tail[i+4:], ":")
		bs := strings.SplitN(body, ";", 2)
		f := &thFun{name: name, generic: gen, params: ps, ret: ret, rec: true, on: -1, where: where}
		for i, p := range ps {
			if p.name == strings.TrimSpace(v) {
				f.on = i
			}
		}
		f.base, f.step = mustExpr(bs[0], where), mustExpr(bs[1], where)
		t.funs[name] = f
	case "axiom", "lemma":
		// [induct n] [pat(...)]* : expr
		f := &thFact{name: name, lemma: kw == "lemma", generic: gen, params: ps, where: where}
		for {
			if strings.HasPrefix(tail, "induct ") {
				fs := strings.Fields(tail)
				f.on = strings.TrimSuffix(fs[1], ":")
				tail = strings.TrimSpace(tail[len("induct ")+len(f.on):])
				continue
			}
			if strings.HasPrefix(tail, "pat(") {
				q := matchParen(tail, 3)
				f.pats = append(f.pats, mustExpr(tail[:q+1], where))
				tail = strings.TrimSpace(tail[q+1:])
				continue
			}
			if strings.HasPrefix(tail, "uses(") {
				q := matchParen(tail, 4)
				f.uses = splitList(tail[5:q])
				tail = strings.TrimSpace(tail[q+1:])
				continue
			}
			break
		}
		if !strings.HasPrefix(tail, ":") {
			panic(where + ": missing ':'")
		}
		f.expr = mustExpr(tail[1:], where)
		t.facts = append(t.facts, f)
	}
}

func sortE(s string, elem Sort, p *Program) Sort {
	s = strings.TrimSpace(s)
	if s == "E" {
		return elem
	}
	if strings.HasPrefix(s, "Arr[") {
		ps := splitTop(s[4 : len(s)-1])
		return ArrSort(sortE(ps[0], elem, p), sortE(ps[1], elem, p))
	}
	if s == "SeqE" {
		return seqSort(elem)
	}
	return parseSort(s, p)
}

func seqSort(elem Sort) Sort {
	n := "Seq_" + san(string(elem))
	return Sort(n)
}

// unify finds E such that pattern s equals sort got.
func unify(s string, got Sort, elem *Sort) bool {
	s = strings.TrimSpace(s)
	if s == "E" {
		if *elem == "" {
			*elem = got
		}
		return *elem == got
	}
	if strings.HasPrefix(s, "Arr[") {
		if !got.isArr() {
			return false
		}
		k, v := got.parts()
		ps := splitTop(s[4 : len(s)-1])
		return unify(ps[0], k, elem) && unify(ps[1], v, elem)
	}
	return true
}

func (t *Theory) apply(name, sortArg string, args []*Term, p *Program) *Term {
	f := t.funs[name]
	if f == nil {
		evalFail("unknown function %s", name)
	}
	if len(args) != len(f.params) {
		evalFail("%s takes %d arguments", name, len(f.params))
	}
	var elem Sort
	if f.generic {
		if sortArg != "" {
			elem = parseSort(sortArg, p)
		}
		for i, a := range args {
			if f.params[i].sort == "SeqE" {
				if elem == "" {
					for e := range t.seqElems() {
						if seqSort(e) == a.sort {
							elem = e
						}
					}
				}
				continue
			}
			if !unify(f.params[i].sort, a.sort, &elem) {
				evalFail("%s: argument %d has sort %s", name, i+1, a.sort)
			}
		}
		if elem == "" {
			evalFail("%s: cannot infer the element sort", name)
		}
	}
	in := t.instance(f, elem, p)
	for i, a := range args {
		if in.args[i] != a.sort {
			evalFail("%s: argument %d has sort %s, want %s", name, i+1, a.sort, in.args[i])
		}
	}
	if len(args) == 0 {
		return Sym(in.name, in.ret)
	}
	return app(in.name, in.ret, args...)
}

func (t *Theory) seqElems() map[Sort]bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	m := map[Sort]bool{}
	for _, i := range t.inst {
		if i.elem != "" {
			m[i.elem] = true
		}
	}
	m[SStr], m[SInt] = true, true
	return m
}

func (t *Theory) instance(f *thFun, elem Sort, p *Program) *thInst {
	name := f.name
	if f.generic {
		name += "_" + san(string(elem))
	}
	t.mu.Lock()
	if in, ok := t.inst[name]; ok {
		t.mu.Unlock()
		return in
	}
	t.mu.Unlock()
	in := &thInst{f: f, elem: elem, name: name, ret: sortE(f.ret, elem, p)}
	for _, q := range f.params {
		in.args = append(in.args, sortE(q.sort, elem, p))
	}
	t.mu.Lock()
	t.inst[name] = in
	t.mu.Unlock()
	return in
}

// unfold gives the defining equation of one application of a recursive function.
func (t *Theory) unfold(tm *Term, in *thInst, p *Program) *Term {
	f := in.f
	n := tm.args[f.on]
	env := map[string]DV{}
	for i, q := range f.params {
		env[q.name] = DV{tm.args[i], structTypeOf(in.args[i])}
	}
	base := t.evalElem(f.base, env, in.elem, p)
	if v, ok := n.num(); ok && v <= 0 {
		return Eq(tm, base)
	}
	step := t.evalElem(f.step, env, in.elem, p)
	if v, ok := n.num(); ok && v > 0 {
		return Eq(tm, step)
	}
	return Eq(tm, Ite(Le(n, Zero), base, step))
}

func structTypeOf(s Sort) types.Type {
	structMu.Lock()
	defer structMu.Unlock()
	if u, ok := structNames[string(s)]; ok {
		return u
	}
	return nil
}

func (t *Theory) evalElem(e ast.Expr, env map[string]DV, elem Sort, p *Program) *Term {
	c := &evalCtx{p: p, ct: t.ct, heap: map[string]*Term{}, alloc: One, A0: One, env: env}
	elemMu.Lock()
	old := curElem
	curElem = elem
	elemMu.Unlock()
	defer func() { curElem = old }()
	return c.term(c.eval(e))
}

var elemMu sync.Mutex
var curElem Sort

// extra returns the axioms, lemmas and definitional equations relevant to ts.
func (t *Theory) extra(ts []*Term, p *Program, except map[string]bool) []*Term {
	t.big.Lock()
	defer t.big.Unlock()
	var out []*Term
	seen := map[*Term]bool{}
	ops := map[string]bool{}
	var recs, docs []*Term
	var walk func(tm *Term)
	walk = func(tm *Term) {
		if seen[tm] {
			return
		}
		seen[tm] = true
		if len(tm.args) > 0 && tm.bound == nil {
			ops[tm.op] = true
			if tm.op == "jtok" && !tm.hasBV {
				docs = append(docs, tm)
			}
			if in := t.inst[tm.op]; in != nil && in.f.rec {
				recs = append(recs, tm)
			}
		}
		for _, a := range tm.args {
			walk(a)
		}
	}
	for _, tm := range ts {
		walk(tm)
	}
	for _, d := range docs {
		for _, h := range jsonHints(d) {
			if !seen[h] {
				out = append(out, h)
				walk(h)
			}
		}
	}
	// definitional equations, one level
	for depth := 0; depth < 9; depth++ {
		cur := recs
		recs = nil
		for _, r := range cur {
			in := t.inst[r.op]
			if _, isNum := r.args[in.f.on].num(); !isNum && depth > 0 {
				continue // only literal arguments are unfolded to the end
			}
			if u := t.unfoldClosed(r, in, p); u != nil {
				out = append(out, u)
				walk(u)
			}
		}
	}
	// facts whose functions occur
	for changed := true; changed; {
		changed = false
		for _, fi := range t.factInsts(ops, p) {
			k := fi.f.name + "/" + string(fi.elem)
			if except[k] || seen[fi.term] {
				continue
			}
			out = append(out, fi.term)
			walk(fi.term)
			changed = true
		}
	}
	return out
}

func (t *Theory) unfoldClosed(r *Term, in *thInst, p *Program) *Term {
	if !r.hasBV {
		return t.unfold(r, in, p)
	}
	fv := map[*Term]bool{}
	freeBV(r, map[*Term]bool{}, fv)
	// the recursion argument must be closed, or unfolding would not stop
	nf := map[*Term]bool{}
	freeBV(r.args[in.f.on], map[*Term]bool{}, nf)
	if len(nf) > 0 {
		return nil
	}
	var bs []*Term
	for v := range fv {
		bs = append(bs, v)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	u := t.unfold(r, in, p)
	if !triggerable(r) {
		return nil
	}
	return Forall(bs, u, []*Term{r})
}

// factInsts instantiates the facts all of whose trigger functions occur in ops.
func (t *Theory) factInsts(ops map[string]bool, p *Program) []*factInst {
	var out []*factInst
	for _, f := range t.facts {
		elems := []Sort{""}
		if f.generic {
			elems = nil
			for e := range t.seqElems() {
				elems = append(elems, e)
			}
			sort.Slice(elems, func(i, j int) bool { return elems[i] < elems[j] })
		}
		for _, e := range elems {
			if f.generic && !t.mentions(f, e, ops) {
				continue
			}
			fi := t.fact(f, e, p)
			ok := true
			for _, n := range fi.funcs {
				if !ops[n] {
					ok = false
				}
			}
			if ok {
				out = append(out, fi)
			}
		}
	}
	return out
}

// mentions: a generic fact is instantiated at e only if the functions of its triggers are in use at e.
func (t *Theory) mentions(f *thFact, e Sort, ops map[string]bool) bool {
	ok := true
	for _, pe := range f.pats {
		ast.Inspect(pe, func(n ast.Node) bool {
			if c, isc := n.(*ast.CallExpr); isc {
				if id, isid := c.Fun.(*ast.Ident); isid {
					if g := t.funs[id.Name]; g != nil {
						nm := id.Name
						if g.generic {
							nm += "_" + san(string(e))
						}
						if !ops[nm] {
							ok = false
						}
					}
				}
			}
			return true
		})
	}
	return ok
}

func (t *Theory) fact(f *thFact, e Sort, p *Program) *factInst {
	k := f.name + "/" + string(e)
	t.mu.Lock()
	if fi, ok := t.done[k]; ok {
		t.mu.Unlock()
		return fi
	}
	t.mu.Unlock()
	fi := &factInst{f: f, elem: e}
	env := map[string]DV{}
	for _, q := range f.params {
		s := sortE(q.sort, e, p)
		b := BVar("q_"+q.name+"_"+san(string(s)), s)
		fi.params = append(fi.params, b)
		env[q.name] = DV{b, structTypeOf(s)}
	}
	body := t.evalElem(f.expr, env, e, p)
	fi.body = body
	var pats [][]*Term
	names := map[string]bool{}
	for _, pe := range f.pats {
		var ps []*Term
		for _, a := range pe.(*ast.CallExpr).Args {
			tm := t.evalElem(a, env, e, p)
			ps = append(ps, tm)
			collectOps(tm, names)
		}
		pats = append(pats, ps)
	}
	for n := range names {
		if t.inst[n] != nil {
			fi.funcs = append(fi.funcs, n)
		}
	}
	if len(pats) == 0 && len(fi.params) > 0 {
		pats = autoPats(fi.params, body)
		for _, pp := range pats {
			for _, q := range pp {
				collectOps(q, names)
			}
		}
		for n := range names {
			if !interpreted[n] && n != "select" {
				fi.funcs = append(fi.funcs, n)
			}
		}
	}
	fi.term = Forall(fi.params, body, pats...)
	t.mu.Lock()
	t.done[k] = fi
	t.mu.Unlock()
	return fi
}

func collectOps(t *Term, m map[string]bool) {
	if len(t.args) > 0 {
		m[t.op] = true
	}
	for _, a := range t.args {
		collectOps(a, m)
	}
}

// lemmaObls are the proof obligations of the lemma instances in use.
func (t *Theory) lemmaObls(p *Program) []*Obl {
	var out []*Obl
	var ks []string
	for k, fi := range t.done {
		if fi.f.lemma {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fi := t.done[k]
		m := map[*Term]*Term{}
		var on *Term
		for i, b := range fi.params {
			s := Sym("lm_"+fi.f.params[i].name+"_"+san(string(b.sort)), b.sort)
			m[b] = s
			if fi.f.params[i].name == fi.f.on {
				on = s
			}
		}
		goal := subst(fi.body, m)
		mk := func(part string, assume []*Term, g *Term) {
			out = append(out, &Obl{Fn: "theory", Kind: "lemma", Label: fi.f.name + "[" + string(fi.elem) + "]/" + part, assume: assume, goal: g})
		}
		if on == nil {
			mk("direct", nil, goal)
			continue
		}
		// induction on a natural number: base n <= 0, step from n-1 (for all other parameters)
		var others []*Term
		m2 := map[*Term]*Term{}
		for i, b := range fi.params {
			if fi.f.params[i].name == fi.f.on {
				m2[b] = Add(on, Num(-1))
			} else {
				others = append(others, b)
			}
		}
		var pats [][]*Term
		for _, pp := range fi.term.pats {
			var np []*Term
			for _, q := range pp {
				np = append(np, subst(q, m2))
			}
			pats = append(pats, np)
		}
		ihq := Forall(others, subst(fi.body, m2))
		// the induction hypothesis for the same other parameters, and in general
		same := subst(goal, map[*Term]*Term{on: Add(on, Num(-1))})
		_ = pats
		hyps := []*Term{same}
		if len(others) > 0 && ihq != True {
			hyps = append(hyps, Forall(others, subst(fi.body, m2), autoPats(others, subst(fi.body, m2))...))
		}
		mk("base", []*Term{Le(on, Zero)}, goal)
		mk("step", append([]*Term{Lt(Zero, on)}, hyps...), goal)
	}
	return out
}

func (t *Theory) describe() []string {
	var s []string
	for _, f := range t.facts {
		if !f.lemma {
			s = append(s, fmt.Sprintf("axiom %s", f.name))
		}
	}
	return s
}

// axiomNames lists the unproved facts in use.
func (t *Theory) axiomNames() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	seen := map[string]bool{}
	var out []string
	for _, fi := range t.done {
		if !fi.f.lemma && !seen[fi.f.name] {
			seen[fi.f.name] = true
			out = append(out, "axiom "+fi.f.name)
		}
	}
	sort.Strings(out)
	return out
}
