package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var preMu sync.Mutex
var preText string
var preN int

// preamble declares sorts, datatypes and facts about strings.
func (x *Exec) preamble() string { return preambleText() }

func preambleText() string {
	preMu.Lock()
	defer preMu.Unlock()
	dtMu.Lock()
	n := len(dtOrd)
	dtMu.Unlock()
	litMu.Lock()
	nl := len(litList)
	litMu.Unlock()
	if preText != "" && preN == n*1000000+nl {
		return preText
	}
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n")
	b.WriteString(datatypeDecls())
	var cs []string
	for s := range customSorts {
		cs = append(cs, s)
	}
	sort.Strings(cs)
	for _, s := range cs {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	preText, preN = b.String(), n*1000000+nl
	return preText
}

func (x *Exec) wants(o *Obl) bool {
	if x.cfg.prop == "" {
		return true
	}
	if o.Tags != nil {
		return o.Tags[x.cfg.prop]
	}
	switch o.Kind {
	case "inv-entry", "inv-preserved", "requires":
		return true
	case "bounds", "nil", "nilmap", "makeslice", "divzero", "panic", "typeassert":
		return x.cfg.prop != "C18" && x.cfg.prop != "C20" // an operation that panics keeps no promise
	case "overflow":
		return x.cfg.prop != "C25"
	}
	return true
}

func (x *Exec) cover(st *State, what string, b *ssa.BasicBlock) {
	if x.quiet > 0 || st.dead {
		return
	}
	x.covers = append(x.covers, &Obl{Fn: x.fc.Name, Kind: "reachable", Label: what, assume: st.pc[:len(st.pc):len(st.pc)], goal: False})
}

// Result of verifying one function.
type FnResult struct {
	Name    string
	Obls    []*Obl
	Covers  []*Obl
	Terms   []*Obl
	Inlined []string
	Used    []string
	Err     string
	Exits   int
}

func newExec(p *Program, ct *Contracts, pool *Pool, cfg execCfg) *Exec {
	return &Exec{p: p, ct: ct, pool: pool, cfg: cfg, inlined: map[string]bool{}, used: map[string]bool{}, loopInfo: map[*ssa.Function]*fnLoops{}, lockPtrs: map[string]bool{}, hard: map[string]bool{}}
}

// Verify generates the obligations of one function under contract.
func (x *Exec) Verify(fc *FuncContract) (r *FnResult) {
	r = &FnResult{Name: fc.Name}
	x.fc = fc
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				r.Err = e.what
			case evalErr:
				r.Err = e.msg
			default:
				panic(e)
			}
		}
		r.Obls, r.Covers, r.Terms, r.Exits = x.obls, x.covers, x.terms, x.nexits
		for k := range x.inlined {
			r.Inlined = append(r.Inlined, k)
		}
		for k := range x.used {
			r.Used = append(r.Used, k)
		}
		sort.Strings(r.Inlined)
		sort.Strings(r.Used)
	}()
	base, _, _ := strings.Cut(fc.Name, "#")
	fn := x.p.funcs[base]
	if fn == nil {
		fail("function %s does not exist", fc.Name)
	}
	x.fn = fn
	st := &State{heap: map[string]*Term{}, cells: map[int]Val{}, clos: map[*Term]*Clo{}, ifaces: map[*Term]*IfaceV{}}
	x.A0 = Sym("A0", SInt)
	st.alloc = x.A0
	st.assume(Le(One, x.A0))
	x.entry = st.snap()
	x.entry.heap = st.heap
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	if len(fc.Params) != len(fn.Params) {
		fail("%s has %d parameters, its contract %d", fc.Name, len(fn.Params), len(fc.Params))
	}
	env := map[string]DV{}
	for i, p := range fn.Params {
		v := x.paramVal(st, p, fc.Params[i])
		fr.env[p] = v
		env[fc.Params[i]] = DV{v, p.Type()}
		if b := fc.Opts["bind"]; b != "" {
			if n, f, _ := strings.Cut(b, " "); n == fc.Params[i] {
				// the parameter is this function of the package
				g := x.p.funcs[strings.TrimSpace(f)]
				if g == nil {
					fail("function %s does not exist", f)
				}
				clo := &Clo{fn: g}
				fr.env[p] = clo
				env[fc.Params[i]] = DV{x.T(st, clo), p.Type()}
			}
		}
	}
	x.env0 = env
	x.entry = st.snap()
	x.initCon(st, fc, env)
	c := x.ctx(st, env)
	for _, l := range fc.Lets {
		env[l.Label] = x.must(func() DV { return c.eval(l.Expr) }, fc, l)
	}
	for _, rq := range fc.Requires {
		t, err := c.evalBool(rq.Expr)
		if err != nil {
			fail("requires %s: %v", rq.Label, err)
		}
		st.assume(t)
	}
	x.entry = st.snap()
	x.cover(st, "entry", nil)
	fr.ret = func(s *State, res []Val) { x.exit(s, res, env) }
	if fc.Opts["apply"] != "" {
		// the result is a function: its calls are what is specified
		fr.ret = func(s *State, res []Val) {
			cl, ok := res[0].(*Clo)
			if t, isT := res[0].(*Term); isT && s.clos[t] != nil {
				cl, ok = s.clos[t], true
			}
			if !ok {
				fail("the result is not a known function")
			}
			var args []Val
			off := len(cl.fn.Params) - cl.fn.Signature.Params().Len()
			for i, n := range splitList(fc.Opts["apply"]) {
				v := x.paramVal(s, cl.fn.Params[off+i], n)
				args = append(args, v)
				env[n] = DV{v, cl.fn.Params[off+i].Type()}
			}
			x.applied = cl.fn.Signature
			x.callFn(s, nil, cl.fn, cl.binds, args, func(s *State, v Val) {
				res := []Val{v}
				if tp, ok := v.(Tup); ok {
					res = tp
				}
				x.exit(s, res, env)
			})
		}
	}
	st.frames = []*Frame{fr}
	if fc.Opts["bycontract"] != "" {
		// derived from the base contract alone
		var args []Val
		for _, p := range fn.Params {
			args = append(args, fr.env[p])
		}
		x.apply(st, x.ct.Funcs[base], args, fn, fn.Signature, nil, func(s *State, v Val) {
			res := []Val{v}
			if tp, ok := v.(Tup); ok {
				res = tp
			}
			x.exit(s, res, env)
		})
	} else {
		x.block(st, fn.Blocks[0], nil)
	}
	x.dependsObls()
	if x.nexits == 0 {
		fail("no path reaches the end")
	}
	return r
}

func (x *Exec) paramVal(st *State, p *ssa.Parameter, name string) Val {
	t := p.Type()
	s := sortOf(t)
	v := Sym("p_"+name, s)
	x.loadFacts(st, v, t)
	return v
}

// exit checks the postcondition at a return.
func (x *Exec) exit(st *State, res []Val, env0 map[string]DV) {
	x.nexits++
	env := map[string]DV{}
	for k, v := range env0 {
		env[k] = v
	}
	for k, v := range st.env {
		env[k] = v
	}
	sig := x.fn.Signature
	if x.applied != nil {
		sig = x.applied
	}
	if len(x.fc.Results) != 0 && len(x.fc.Results) != len(res) {
		fail("%s has %d results, its contract %d", x.fc.Name, len(res), len(x.fc.Results))
	}
	for i, n := range x.fc.Results {
		v := res[i]
		if iv, ok := v.(IfaceV); ok {
			_ = iv
			v = res[i]
		} else if c, ok := v.(*Clo); ok {
			v = x.T(st, c)
		}
		env[n] = DV{v, sig.Results().At(i).Type()}
	}
	x.exitCon(st, env)
	x.cover(st, "exit", nil)
	c := x.ctx(st, env)
	for _, d := range x.fc.Defs {
		env[d.Label] = x.must(func() DV { return c.eval(d.Expr) }, x.fc, d)
	}
	for _, e := range x.fc.Ensures {
		if st.old != nil {
			e.Tags = tagC20 // judged against the state it started over from
		}
		if e.Tags != nil && x.cfg.prop != "" && !e.Tags[x.cfg.prop] {
			continue
		}
		t, err := c.evalBool(e.Expr)
		if err != nil {
			fail("ensures %s: %v", e.Label, err)
		}
		st2 := st.clone()
		for i, g := range conjuncts(t) {
			lb := e.Label
			if i > 0 {
				lb = fmt.Sprintf("%s.%d", e.Label, i+1)
			}
			x.obligT(st2, "ensures", lb, g, x.retInstr(st), e.Tags)
		}
	}
	if x.fc.HasFrame {
		tags := x.fc.Frame
		if st.old != nil {
			tags = tagC20
		}
		x.frame(st, env, tags)
	}
	for i, d := range x.fc.Depends {
		if d.Tags != nil && x.cfg.prop != "" && !d.Tags[x.cfg.prop] {
			continue
		}
		call := d.Expr.(*ast.CallExpr)
		ex := depExit{clause: i, pc: st.pc[:len(st.pc):len(st.pc)]}
		for j, a := range call.Args {
			v := x.must(func() DV { return c.eval(a) }, x.fc, d)
			t := x.T(st, v.v)
			if j == 0 {
				ex.res = t
			} else {
				ex.on = append(ex.on, t)
			}
		}
		x.deps = append(x.deps, ex)
	}
}

type depExit struct {
	clause int
	pc     []*Term
	res    *Term
	on     []*Term
}

// dependsObls: a result is a function of the named values alone. Two runs, in
// different states and with different arguments that agree on those values,
// yield the same result.
func (x *Exec) dependsObls() {
	for i, a := range x.deps {
		for j, b := range x.deps {
			if a.clause != b.clause || j < i {
				continue
			}
			d := x.fc.Depends[a.clause]
			m := map[*Term]*Term{}
			all := append(append([]*Term{b.res}, b.on...), b.pc...)
			for _, s := range symsOf(all) {
				if depRe.MatchString(s.op) {
					m[s] = Sym(s.op+"!b", s.sort)
				}
			}
			as := append([]*Term{}, a.pc...)
			for _, t := range b.pc {
				as = append(as, subst(t, m))
			}
			for k := range a.on {
				as = append(as, Eq(a.on[k], subst(b.on[k], m)))
			}
			x.obls = append(x.obls, &Obl{Fn: x.fc.Name, Kind: "depends", Label: d.Label, Tags: d.Tags, assume: as, goal: Eq(a.res, subst(b.res, m))})
		}
	}
}

var depRe = regexp.MustCompile(`^p_|![0-9]+$|^H0_|^A0$`)

func symsOf(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sym {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

func (x *Exec) retInstr(st *State) ssa.Instruction { return nil }

// frame: everything allocated before the call that is not named in a modifies
// clause is as it was.
func (x *Exec) frame(st *State, env map[string]DV, tags map[string]bool) {
	exs := x.frameTargets(st, env)
	old0, a0 := x.oldOf(st)
	var ks []string
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := st.heap[k]
		o := heapOf(old0.heap, k, v.sort)
		if o == v || strings.HasPrefix(k, "G:") && x.internalGhost(k) {
			continue
		}
		if !v.sort.isArr() {
			allowed := false
			for _, e := range exs {
				allowed = allowed || e.key == k
			}
			if !allowed {
				x.obligT(st.clone(), "frame", k, Eq(v, o), nil, tags)
			}
			continue
		}
		ix, _ := v.sort.parts()
		if ix != SInt {
			x.obligT(st.clone(), "frame", k, Eq(v, o), nil, tags)
			continue
		}
		r := Sym("frame_r", SInt)
		var or []*Term
		for _, e := range exs {
			if e.key == k {
				if e.has == nil {
					or = append(or, True)
				} else {
					or = append(or, e.has(r))
				}
			}
		}
		goal := Imp(And(frameLow(k, r), Lt(r, a0), Not(Or(or...))), Eq(Select(v, r), Select(o, r)))
		x.obligT(st.clone(), "frame", k, goal, nil, tags)
	}
}

func (x *Exec) frameTargets(st *State, env map[string]DV) []target {
	var exs []target
	old0, a0 := x.oldOf(st)
	pre := &evalCtx{x: x, p: x.p, ct: x.ct, st: st, heap: old0.heap, alloc: old0.alloc, old: old0, A0: a0, env: env}
	for _, m := range x.fc.Modifies {
		exs = append(exs, x.targets(pre, m, x.fc)...)
	}
	return exs
}

type target struct {
	key  string
	sort Sort
	has  func(r *Term) *Term // nil: the whole heap
	refs []*Term             // explicit references, when known
}

// targets of one modifies expression:
//
//	p.f            field f of object p
//	c(s)           elements of slice s
//	m (a map)      the map's entries
//	all(s, T, cond)  every object s of memory class T satisfying cond
//	Gname / Gname[i]  ghost state
func (x *Exec) targets(c *evalCtx, e ast.Expr, fc *FuncContract) []target {
	single := func(k string, s Sort, ref *Term) target {
		return target{k, s, func(r *Term) *Term { return Eq(r, ref) }, []*Term{ref}}
	}
	switch e := e.(type) {
	case *ast.Ident:
		if gs, ok := x.ct.GhostT[e.Name]; ok {
			return []target{{"G:" + e.Name, c.sort(gs), nil, nil}}
		}
	case *ast.IndexExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if gs, ok := x.ct.GhostT[id.Name]; ok {
				return []target{single("G:"+id.Name, c.sort(gs), c.term(c.eval(e.Index)))}
			}
		}
	case *ast.SelectorExpr:
		b := c.eval(e.X)
		if iv, ok := b.v.(IfaceV); ok {
			b = DV{iv.v, iv.typ}
		}
		s, t, ok := structOf(b.t)
		if ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == e.Sel.Name {
					k, hs := fieldKey(t, i)
					return []target{single(k, hs, c.term(b))}
				}
			}
		}
	case *ast.CallExpr:
		switch e.Fun.(*ast.Ident).Name {
		case "c":
			s, et := c.slice(c.eval(e.Args[0]))
			es := sortOf(et)
			return []target{single(sliceKey(es), sliceHeapSort(es), s.ref)}
		case "entries":
			m := c.eval(e.Args[0])
			ms := mapSortsOf(m.t)
			r := c.term(m)
			dk, ds := ms.dk()
			vk, vs := ms.vk()
			ck, cs := ms.ck()
			return []target{single(dk, ds, r), single(vk, vs, r), single(ck, cs, r)}
		case "slices":
			// slices(T, r, cond): contents of all slices of T with reference r such that cond
			es := c.sort(exprString(e.Args[0]))
			name := e.Args[1].(*ast.Ident).Name
			return []target{{sliceKey(es), sliceHeapSort(es), func(r *Term) *Term {
				return c.bind(name, DV{r, nil}).boolean(e.Args[2])
			}, nil}}
		}
	}
	fail("contract %s: modifies %s", fc.Name, exprString(e))
	return nil
}

func (x *Exec) havocTarget(st *State, c *evalCtx, e ast.Expr, fc *FuncContract) {
	for _, t := range x.targets(c, e, fc) {
		cur := x.heap(st, t.key, t.sort)
		switch {
		case t.has == nil:
			st.heap[t.key] = x.fresh(st, "h_"+t.key, t.sort)
		case t.refs != nil:
			_, vs := t.sort.parts()
			for _, r := range t.refs {
				cur = Store(cur, r, x.fresh(st, "m_"+t.key, vs))
			}
			st.heap[t.key] = cur
		default:
			n := x.fresh(st, "h_"+t.key, t.sort)
			r := BVar("r", SInt)
			sel := app("select", Select(n, r).sort, n, r)
			st.assume(Forall([]*Term{r}, Imp(And(Lt(r, st.alloc), Not(t.has(r))), Eq(sel, Select(cur, r))), []*Term{sel}))
			st.heap[t.key] = n
		}
	}
}

func (x *Exec) internalGhost(k string) bool { return strings.HasPrefix(k, "G:_") }

var _ = types.Typ

// frameLow: what lies at the null reference means nothing (ghost state apart).
func frameLow(k string, r *Term) *Term {
	if strings.HasPrefix(k, "G:") {
		return Le(Zero, r)
	}
	return Lt(Zero, r)
}
