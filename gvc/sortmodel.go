package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sortSlice is the contract of a sorting function: provided the comparison is
// a strict weak order, the slice becomes a permutation of itself in which no
// later element is less than an earlier one.
func (x *Exec) sortSlice(st *State, in ssa.Instruction, sv Val, elem types.Type, less func(s *State, i, j *Term) []exitSt) {
	s := asSlice(sv)
	if s.off != Zero {
		fail("sorting a slice with an offset")
	}
	es := sortOf(elem)
	n := s.len
	x.accessSlice(st, s, elem, nil, true, in)
	old := x.content(st, s.ref, es)
	// the comparison, on arbitrary contents
	C := x.fresh(st, "anyorder", ArrSort(SInt, es))
	I, J := x.fresh(st, "si", SInt), x.fresh(st, "sj", SInt)
	K := x.fresh(st, "sk", SInt)
	rng := func(t *Term) *Term { return And(Le(Zero, t), Lt(t, n)) }
	s2 := st.clone()
	x.setContent(s2, s.ref, es, C)
	s2.assume(And(rng(I), rng(J)))
	base := len(s2.pc)
	fr0 := s2.fresh
	x.nofacts++
	exits := less(s2, I, J)
	x.nofacts--
	var cases []*Term
	for _, e := range exits {
		x.sameHeap(s2, e.st, in)
		if e.st.fresh != fr0 {
			fail("a comparison that is not a simple expression")
		}
		cases = append(cases, And(append(append([]*Term{}, e.st.pc[base:]...), e.res[0].(*Term))...))
	}
	phi := Or(cases...)
	at := func(c, i, j *Term) *Term { return subst(phi, map[*Term]*Term{C: c, I: i, J: j}) }
	s3 := st.clone()
	s3.assume(And(rng(I), rng(J), rng(K)))
	for _, t := range []*Term{I, J, K} {
		s3.assume(typeFacts(Select(C, t), elem, s3.alloc))
	}
	lt := func(a, b *Term) *Term { return at(C, a, b) }
	x.oblig(s3, "order", "irreflexive", Not(lt(I, I)), in)
	x.oblig(s3, "order", "asymmetric", Imp(lt(I, J), Not(lt(J, I))), in)
	x.oblig(s3, "order", "transitive", Imp(And(lt(I, J), lt(J, K)), lt(I, K)), in)
	inc := func(a, b *Term) *Term { return And(Not(lt(a, b)), Not(lt(b, a))) }
	x.oblig(s3, "order", "ties", Imp(And(inc(I, J), inc(J, K)), inc(I, K)), in)
	// the result
	N := x.fresh(st, "sorted", ArrSort(SInt, es))
	i, j := BVar("i", SInt), BVar("j", SInt)
	sel := func(c, i *Term) *Term { return app("select", es, c, i) }
	st.assume(Forall([]*Term{i, j}, Imp(And(Le(Zero, i), Lt(i, j), Lt(j, n)), Not(at(N, j, i))), []*Term{sel(N, i), sel(N, j)}))
	st.fresh++
	perm := "perm_" + itoa(st.fresh)
	pi := app(perm, SInt, i)
	pj := app("inv_"+perm, SInt, i)
	from := func(c, d, p *Term, q string) {
		st.assume(Forall([]*Term{i}, Imp(And(Le(Zero, i), Lt(i, n)), And(Le(Zero, p), Lt(p, n), Eq(app(q, SInt, p), i), Eq(sel(c, i), sel(d, p)))), []*Term{sel(c, i)}))
	}
	from(N, old, pi, "inv_"+perm)
	from(old, N, pj, perm)
	v := BVar("v", es)
	oc := x.ct.Theory.apply("occ", "", []*Term{N, n, v}, x.p)
	st.assume(Forall([]*Term{v}, Eq(oc, x.ct.Theory.apply("occ", "", []*Term{old, n, v}, x.p)), []*Term{oc}))
	x.setContent(st, s.ref, es, N)
}

func itoa(n int) string { return Num(int64(n)).op }

func sortIface(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
	iv, ok := x.knownIface(st, args[0])
	if !ok {
		fail("sorting an unknown collection")
	}
	u, ok := iv.typ.Underlying().(*types.Slice)
	if !ok {
		fail("sorting a %s", iv.typ)
	}
	sv := x.asTerm(iv.v)
	s := asSlice(sv)
	es := sortOf(u.Elem())
	method := func(name string) *ssa.Function {
		fn := x.p.prog.LookupMethod(iv.typ, nil, name)
		if fn == nil {
			fail("no method %s on %s", name, iv.typ)
		}
		return fn
	}
	run := func(s *State, name string, as ...Val) []exitSt {
		return x.runValue(s, in, &Clo{fn: method(name)}, method(name).Signature, append([]Val{sv}, as...))
	}
	for _, e := range run(st, "Len") {
		x.sameHeap(st, e.st, in)
		x.oblig(e.st, "sort", "Len", Eq(e.res[0].(*Term), s.len), in)
	}
	// Swap exchanges two elements and nothing else
	I, J := x.fresh(st, "wi", SInt), x.fresh(st, "wj", SInt)
	ws := st.clone()
	ws.assume(And(Le(Zero, I), Lt(I, s.len), Le(Zero, J), Lt(J, s.len)))
	C := x.fresh(ws, "anyswap", ArrSort(SInt, es))
	x.setContent(ws, s.ref, es, C)
	for _, e := range run(ws, "Swap", I, J) {
		want := ws.clone()
		x.setContent(want, s.ref, es, Store(Store(C, I, Select(C, J)), J, Select(C, I)))
		q := x.fresh(e.st, "wk", SInt)
		x.oblig(e.st, "sort", "Swap", Imp(And(Le(Zero, q), Lt(q, s.len)), Eq(Select(x.content(e.st, s.ref, es), q), Select(x.content(want, s.ref, es), q))), in)
		chk := e.st.clone()
		x.setContent(chk, s.ref, es, C)
		w2 := ws.clone()
		x.sameHeapBut(w2, chk, sliceKey(es), s.ref, in)
	}
	x.sortSlice(st, in, sv, u.Elem(), func(s *State, i, j *Term) []exitSt { return run(s, "Less", i, j) })
	k(st, Tup{})
}

// sameHeapBut: nothing but one slice's contents differs.
func (x *Exec) sameHeapBut(st, e *State, key string, ref *Term, in ssa.Instruction) {
	for k, v := range e.heap {
		o := heapOf(st.heap, k, v.sort)
		if o == v || strings.HasPrefix(k, "G:_round") {
			continue
		}
		r := Sym("cb_r", SInt)
		if ix, _ := sortParts(v.sort); ix == SInt {
			g := Imp(And(Lt(Zero, r), Lt(r, st.alloc)), Eq(Select(v, r), Select(o, r)))
			if k == key {
				g = Imp(Not(Eq(r, ref)), g)
			}
			x.oblig(e, "callback", "frame "+k, g, in)
		} else {
			x.oblig(e, "callback", "frame "+k, Eq(v, o), in)
		}
	}
}

func (x *Exec) asTerm(v Val) Val {
	if s, ok := v.(SliceV); ok {
		return normSlice(s)
	}
	return v
}

func (x *Exec) knownIface(st *State, v Val) (IfaceV, bool) {
	if t, ok := v.(*Term); ok {
		if iv := st.ifaces[t]; iv != nil {
			return *iv, true
		}
		return IfaceV{}, false
	}
	iv, ok := v.(IfaceV)
	return iv, ok
}

// sortSliceFn models sort.Slice and sort.SliceStable.
func sortSliceFn(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
	iv, ok := x.knownIface(st, args[0])
	if !ok {
		fail("sorting an unknown collection")
	}
	u, ok := iv.typ.Underlying().(*types.Slice)
	if !ok {
		fail("sorting a %s", iv.typ)
	}
	lt := f.Signature.Params().At(1).Type()
	x.sortSlice(st, in, x.asTerm(iv.v), u.Elem(), func(s *State, i, j *Term) []exitSt {
		return x.runValue(s, in, args[1], lt, []Val{i, j})
	})
	k(st, Tup{})
}

// sortFunc models slices.SortFunc and slices.SortStableFunc.
func sortFunc(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
	u := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	lt := f.Signature.Params().At(1).Type()
	es := sortOf(u.Elem())
	sv := args[0]
	ref := asSlice(sv).ref
	x.sortSlice(st, in, sv, u.Elem(), func(s *State, i, j *Term) []exitSt {
		c := x.content(s, ref, es)
		rs := x.runValue(s, in, args[1], lt, []Val{Select(c, i), Select(c, j)})
		for n := range rs {
			rs[n].res = []Val{Lt(rs[n].res[0].(*Term), Zero)}
		}
		return rs
	})
	k(st, Tup{})
}

// sortBasic models sort.Strings, sort.Ints and slices.Sort.
func sortBasic(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
	u := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	es := sortOf(u.Elem())
	ref := asSlice(args[0]).ref
	x.sortSlice(st, in, args[0], u.Elem(), func(s *State, i, j *Term) []exitSt {
		c := x.content(s, ref, es)
		a, b := Select(c, i), Select(c, j)
		if es == SStr {
			return []exitSt{{s.clone(), []Val{strlt(a, b)}}}
		}
		if es != SInt {
			fail("sorting %s", es)
		}
		return []exitSt{{s.clone(), []Val{Lt(a, b)}}}
	})
	k(st, Tup{})
}

// cmpModel: cmp.Compare and strings.Compare.
func cmpModel(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
	a, b := x.T(st, args[0]), x.T(st, args[1])
	switch a.sort {
	case SStr:
		k(st, Ite(strlt(a, b), Num(-1), Ite(strlt(b, a), One, Zero)))
	case SInt:
		k(st, Ite(Lt(a, b), Num(-1), Ite(Lt(b, a), One, Zero)))
	default:
		fail("comparison of %s", a.sort)
	}
}

func init() {
	more["sort.Sort"] = sortIface
	more["sort.Stable"] = sortIface
	more["sort.Slice"] = sortSliceFn
	more["sort.SliceStable"] = sortSliceFn
	more["slices.SortFunc"] = sortFunc
	more["slices.SortStableFunc"] = sortFunc
	more["slices.Sort"] = sortBasic
	more["sort.Strings"] = sortBasic
	more["sort.Ints"] = sortBasic
	more["cmp.Compare"] = cmpModel
	more["strings.Compare"] = cmpModel
}
