package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctx is an evaluation context for contract expressions in state s.
func (x *Exec) ctx(s *State, env map[string]DV) *evalCtx {
	old, a0 := x.oldOf(s)
	return &evalCtx{x: x, p: x.p, ct: x.ct, st: s, heap: s.heap, alloc: s.alloc, old: old, A0: a0, env: env}
}

// oldOf is the state an operation is judged against: its beginning, or the
// last point at which it started over.
func (x *Exec) oldOf(s *State) (*Snap, *Term) {
	if s.old != nil {
		return s.old, s.old.alloc
	}
	return x.entry, x.A0
}

func (x *Exec) envOf(s *State) map[string]DV {
	if s.env != nil {
		return s.env
	}
	return x.env0
}

func (x *Exec) calleeArgs(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		return x.val(st, c.Value), args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return c.Value, args
	}
	return x.val(st, c.Value), args
}

func (x *Exec) call(st *State, in ssa.CallInstruction, c *ssa.CallCommon, k func(*State, Val)) {
	fn, args := x.calleeArgs(st, c)
	x.callVal(st, in, c, fn, args, k)
}

func one(res []Val) Val {
	if len(res) == 1 {
		return res[0]
	}
	return Tup(res)
}

func (x *Exec) callVal(st *State, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val, k func(*State, Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, x.builtin(st, b, args, c, in))
		return
	}
	if c.IsInvoke() {
		x.invoke(st, in, c, fn, args, k)
		return
	}
	switch f := fn.(type) {
	case *Clo:
		if f.fn == nil {
			x.oblig(st, "nil", "call", False, in)
			return
		}
		x.callFn(st, in, f.fn, f.binds, args, k)
		return
	case *Term:
		if cl := st.clos[f]; cl != nil {
			x.callFn(st, in, cl.fn, cl.binds, args, k)
			return
		}
		x.oblig(st, "nil", "call", Not(Eq(f, Zero)), in)
		fc := x.funcTypeContract(c.Value.Type())
		if fc == nil {
			fail("call of an unknown function of type %s", c.Value.Type())
		}
		sig := c.Value.Type().Underlying().(*types.Signature)
		x.apply(st, fc, append([]Val{f}, args...), nil, sig, in, k)
		return
	}
	fail("call of %T", fn)
}

func (x *Exec) funcTypeContract(t types.Type) *FuncContract {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if fc := x.ct.Funcs[n.Obj().Name()]; fc != nil && fc.Kind == "functype" {
			return fc
		}
	}
	for name, fc := range x.ct.Funcs {
		if fc.Kind != "functype" {
			continue
		}
		if o := x.p.pkg.Pkg.Scope().Lookup(name); o != nil && types.Identical(o.Type().Underlying(), t.Underlying()) {
			return fc
		}
	}
	return nil
}

func (x *Exec) invoke(st *State, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val, k func(*State, Val)) {
	m := c.Method
	if t, ok := recv.(*Term); ok {
		if iv := st.ifaces[t]; iv != nil {
			recv = *iv
		}
	}
	if iv, ok := recv.(IfaceV); ok {
		f := x.p.prog.LookupMethod(iv.typ, m.Pkg(), m.Name())
		if f == nil {
			fail("method %s of %s", m.Name(), iv.typ)
		}
		x.callFn(st, in, f, nil, append([]Val{iv.v}, args...), k)
		return
	}
	t, ok := recv.(*Term)
	if !ok {
		fail("method call on %T", recv)
	}
	x.oblig(st, "nil", "interface", Not(Eq(t, Zero)), in)
	if nm, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && nm.Obj().Pkg() != nil {
		q := nm.Obj().Pkg().Path() + "." + nm.Obj().Name() + "." + m.Name()
		if mi := moreInvoke[q]; mi != nil {
			x.used["library: "+q] = true
			mi(x, st, in, t, args, k)
			return
		}
	}
	fc := x.ifaceContract(c.Value.Type(), m)
	if fc == nil {
		fail("no contract for method %s of %s", m.Name(), c.Value.Type())
	}
	x.apply(st, fc, append([]Val{t}, args...), nil, m.Type().(*types.Signature), in, k)
}

func (x *Exec) ifaceContract(t types.Type, m *types.Func) *FuncContract {
	n := ""
	if nm, ok := types.Unalias(t).(*types.Named); ok {
		n = nm.Obj().Name()
	}
	if fc := x.ct.Funcs[n+"."+m.Name()]; fc != nil && fc.Kind == "iface" {
		return fc
	}
	for name, fc := range x.ct.Funcs {
		if fc.Kind != "iface" || !strings.HasSuffix(name, "."+m.Name()) {
			continue
		}
		o := x.p.pkg.Pkg.Scope().Lookup(strings.TrimSuffix(name, "."+m.Name()))
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == m.Name() && types.Identical(it.Method(i).Type(), m.Type()) {
				return fc
			}
		}
	}
	return nil
}

// contractName of a function of the package under verification.
func (x *Exec) contractName(f *ssa.Function) string {
	if f.Pkg != x.p.pkg || f.Parent() != nil {
		return ""
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
		return ""
	}
	return f.Name()
}

func (x *Exec) callFn(st *State, in ssa.Instruction, f *ssa.Function, binds, args []Val, k func(*State, Val)) {
	if m := modelOf(f); m != nil {
		x.used["library: "+fullName(f)] = true
		m(x, st, in, f, args, k)
		return
	}
	if n := x.contractName(f); n != "" {
		if fc := x.ct.Funcs[n]; fc != nil && fc.Kind == "func" && (x.fc.Use[n] || fc.Opts["modular"] != "") && f != x.fn {
			x.used["contract: "+n] = true
			x.apply(st, fc, args, f, f.Signature, in, k)
			return
		}
	}
	if len(f.Blocks) == 0 || !x.inlinable(f) {
		fail("no contract for %s", fullName(f))
	}
	depth, again := 0, 0
	for _, fr := range st.frames {
		if fr.fn == f {
			again++
		}
		depth++
	}
	if again > 2 { // a helper that takes a function may call itself through it
		fail("recursion through %s", f.Name())
	}
	if depth > 24 {
		fail("calls nested too deeply")
	}
	if f != x.fn {
		x.inlined[fullName(f)] = true
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, depth: depth, site: in}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		fr.env[p] = binds[i]
	}
	fr.ret = func(s *State, res []Val) { k(s, one(res)) }
	st.frames = append(st.frames, fr)
	x.block(st, f.Blocks[0], nil)
}

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

// inlinable: code whose body is verified in place of a contract.
func (x *Exec) inlinable(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil {
		if o := f.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil {
		return true // wrappers and bound methods
	}
	if p == x.p.pkg {
		return true
	}
	switch p.Pkg.Path() {
	case "github.com/sonirico/vago/slices", "github.com/sonirico/vago/streams", "slices", "maps", "cmp", "iter":
		return true
	}
	return false
}

// apply uses a contract at a call.
func (x *Exec) apply(st *State, fc *FuncContract, args []Val, f *ssa.Function, sig *types.Signature, in ssa.Instruction, k func(*State, Val)) {
	x.used["contract: "+fc.Name] = true
	env := map[string]DV{}
	var ts []types.Type
	if f != nil {
		for _, p := range f.Params {
			ts = append(ts, p.Type())
		}
	} else {
		ts = append(ts, nil)
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
	}
	if len(fc.Params) != len(args) {
		fail("contract %s expects %d arguments, the call has %d", fc.Name, len(fc.Params), len(args))
	}
	for i, n := range fc.Params {
		v := args[i]
		if ts[i] != nil {
			if _, ok := ts[i].Underlying().(*types.Struct); !ok {
				if _, isSV := v.(SliceV); !isSV {
					if _, isPtr := v.(PCell); !isPtr {
						v = x.T(st, v)
					}
				}
			}
		}
		env[n] = DV{v, ts[i]}
	}
	x.callbackAccess(st, fc, env, in)
	pre := st.snap()
	pc := &evalCtx{x: x, p: x.p, ct: x.ct, st: st, heap: st.heap, alloc: st.alloc, old: pre, A0: pre.alloc, env: env}
	for _, l := range fc.Lets {
		env[l.Label] = x.must(func() DV { return pc.eval(l.Expr) }, fc, l)
	}
	for _, r := range fc.Requires {
		t, err := pc.evalBool(r.Expr)
		if err != nil {
			fail("contract %s, requires %s: %v", fc.Name, r.Label, err)
		}
		for _, g := range conjuncts(t) {
			x.oblig(st, "requires", fc.Name+"."+r.Label, g, in)
		}
	}
	// effects
	for _, m := range fc.Modifies {
		x.havocTarget(st, pc, m, fc)
	}
	na := x.fresh(st, "alloc", SInt)
	st.assume(Le(st.alloc, na))
	st.alloc = na
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.fresh(st, fmt.Sprintf("%s_res%d", san(fc.Name), i), sortOf(t))
		x.loadFacts(st, v, t)
		res = append(res, v)
		if i < len(fc.Results) {
			env[fc.Results[i]] = DV{v, t}
		}
	}
	post := &evalCtx{x: x, p: x.p, ct: x.ct, st: st, heap: st.heap, alloc: st.alloc, old: pre, A0: pre.alloc, env: env}
	for _, d := range fc.Defs {
		env[d.Label] = x.must(func() DV { return post.eval(d.Expr) }, fc, d)
	}
	for _, e := range fc.Ensures {
		t, err := post.evalBool(e.Expr)
		if err != nil {
			fail("contract %s, ensures %s: %v", fc.Name, e.Label, err)
		}
		st.assume(t)
	}
	k(st, one(res))
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (x *Exec) must(f func() DV, fc *FuncContract, cl Clause) (d DV) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				fail("contract %s, %s: %s", fc.Name, cl.Label, e.msg)
			}
			panic(r)
		}
	}()
	return f()
}

// ---- builtins ----

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Val, c *ssa.CallCommon, in ssa.Instruction) Val {
	switch b.Name() {
	case "len":
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return asSlice(args[0]).len
		case *types.Map:
			m := args[0].(*Term)
			x.accessMap(st, m, c.Args[0].Type(), false, in)
			ms := mapSortsOf(t)
			st.assume(x.cardFacts(st, ms, m))
			return ms.card(st.heap, m)
		case *types.Basic:
			n := strlen(args[0].(*Term))
			st.assume(And(Le(Zero, n), Le(n, Num(maxLen))))
			return n
		case *types.Array:
			return Num(t.Len())
		case *types.Pointer:
			return Num(t.Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		return asSlice(args[0]).cap
	case "append":
		return x.append(st, args, c, in)
	case "copy":
		return x.copy(st, args, c, in)
	case "delete":
		x.mapDelete(st, args[0].(*Term), c.Args[0].Type(), x.T(st, args[1]), in)
		return Tup{}
	case "clear":
		if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			r := args[0].(*Term)
			x.accessMap(st, r, c.Args[0].Type(), true, in)
			ms := mapSortsOf(m)
			ms.set(st, r, ConstArr(ArrSort(ms.k, SBool), False), nil, Zero)
			return Tup{}
		}
		if t, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			x.clearSlice(st, asSlice(args[0]), t.Elem(), in)
			return Tup{}
		}
	case "min", "max":
		r := x.T(st, args[0])
		for _, a := range args[1:] {
			t := x.T(st, a)
			if t.sort != SInt {
				fail("%s of %s", b.Name(), t.sort)
			}
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(t, r), r, t)
			}
		}
		return r
	case "print", "println":
		return Tup{}
	case "ssa:wrapnilchk":
		if t, ok := args[0].(*Term); ok {
			x.nonNil(st, t, in)
		}
		return args[0]
	}
	fail("builtin %s", b.Name())
	return nil
}

func (x *Exec) append(st *State, args []Val, c *ssa.CallCommon, in ssa.Instruction) Val {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := sortOf(et)
	s := asSlice(args[0])
	var n *Term
	if t, ok := args[1].(*Term); ok && t.sort == SStr {
		fail("append of a string")
	}
	o := asSlice(args[1])
	n = o.len
	if n == Zero || (s.len == Zero && s.cap == Zero && n == Zero) {
		return normSlice(s)
	}
	base := x.content(st, s.ref, es)
	x.accessSlice(st, o, et, nil, false, in)
	x.accessSlice(st, s, et, nil, false, in)
	src := x.content(st, o.ref, es)
	newLen := Add(s.len, n)
	x.assumeLen(st, newLen)
	fits := Le(newLen, s.cap)
	if s.cap == Zero {
		fits = False
	}
	fresh := x.newRef(st)
	ncap := x.fresh(st, "cap", SInt)
	st.assume(And(Le(newLen, ncap), Le(ncap, Num(maxLen)), Imp(fits, Eq(ncap, s.cap))))
	var nc *Term
	if k, ok := n.num(); ok && k <= 16 && o.off == Zero {
		nc = base
		if s.ref == Zero && s.len == Zero {
			nc = ConstArr(ArrSort(SInt, es), zeroOf(et))
		}
		for i := int64(0); i < k; i++ {
			nc = Store(nc, Add(Add(s.off, s.len), Num(i)), Select(src, Num(i)))
		}
	} else {
		if s.off != Zero {
			fail("append of a slice to a slice with an offset")
		}
		sc := src
		if o.off != Zero {
			sc = app("shift_"+san(string(es)), src.sort, src, o.off)
		}
		// appd(A, la, B, lb): A's first la elements followed by B's first lb
		nc = x.ct.Theory.apply("appd", "", []*Term{base, s.len, sc, n}, x.p)
		i := BVar("i", SInt)
		sel := app("select", es, nc, i)
		st.assume(Forall([]*Term{i}, And(
			Imp(And(Le(Zero, i), Lt(i, s.len)), Eq(sel, Select(base, i))),
			Imp(And(Le(s.len, i), Lt(i, newLen)), Eq(sel, Select(src, Add(o.off, Sub(i, s.len)))))), []*Term{sel}))
		if s.len != Zero {
			h := BVar("h", SInt)
			sh := app("select", es, base, h)
			st.assume(Forall([]*Term{h}, Imp(And(Le(Zero, h), Lt(h, s.len)), Eq(app("select", es, nc, h), sh)), []*Term{sh}))
		}
		j := BVar("j", SInt)
		sj := app("select", es, src, j)
		st.assume(Forall([]*Term{j}, Imp(And(Le(o.off, j), Lt(j, Add(o.off, n))), Eq(app("select", es, nc, Add(Sub(j, o.off), s.len)), sj)), []*Term{sj}))
	}
	rec := func(r *Term) Val {
		if st.con != nil && st.con.task != nil {
			if t, ok := args[0].(*Term); ok && !dependsOn(n, t) && !dependsOn(src, t) {
				st.con.task.appended[r] = t
			}
		}
		return r
	}
	if fits == False {
		if s.off != Zero {
			x.setContent(st, fresh, es, app("shift_"+san(string(es)), nc.sort, nc, s.off))
			x.shiftFacts(st, es, nc, s.off)
		} else {
			x.setContent(st, fresh, es, nc)
		}
		return rec(Mk(SSlice, fresh, newLen, ncap))
	}
	// in place when there is room
	if s.off != Zero {
		fail("append to a slice with an offset that may have room")
	}
	x.accessAppend(st, s, et, fits, in)
	ref := Ite(fits, s.ref, fresh)
	x.setContent(st, ref, es, nc)
	return rec(Mk(SSlice, ref, newLen, ncap))
}

// clearSlice makes every element of the slice zero.
func (x *Exec) clearSlice(st *State, s SliceV, et types.Type, in ssa.Instruction) {
	es := sortOf(et)
	x.accessSlice(st, s, et, nil, true, in)
	if s.len == Zero {
		return
	}
	old := x.content(st, s.ref, es)
	nc := x.fresh(st, "cleared", old.sort)
	i := BVar("i", SInt)
	sel := app("select", es, nc, i)
	st.assume(Forall([]*Term{i}, Eq(sel, Ite(And(Le(s.off, i), Lt(i, Add(s.off, s.len))), zeroOf(et), Select(old, i))), []*Term{sel}))
	so := app("select", es, old, i)
	st.assume(Forall([]*Term{i}, Imp(Or(Lt(i, s.off), Le(Add(s.off, s.len), i)), Eq(sel, so)), []*Term{so}))
	x.setContent(st, s.ref, es, nc)
}

func (x *Exec) shiftFacts(st *State, es Sort, a, off *Term) {
	i := BVar("i", SInt)
	sh := app("shift_"+san(string(es)), a.sort, a, off)
	sel := app("select", es, sh, i)
	st.assume(Forall([]*Term{i}, Eq(sel, Select(a, Add(off, i))), []*Term{sel}))
}

func (x *Exec) assumeLen(st *State, n *Term) { st.assume(Le(n, Num(maxLen))) }

func (x *Exec) copy(st *State, args []Val, c *ssa.CallCommon, in ssa.Instruction) Val {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := sortOf(et)
	d := asSlice(args[0])
	if t, ok := args[1].(*Term); ok && t.sort == SStr {
		fail("copy from a string")
	}
	s := asSlice(args[1])
	n := Ite(Le(d.len, s.len), d.len, s.len)
	x.accessSlice(st, s, et, nil, false, in)
	x.accessSlice(st, d, et, nil, true, in)
	src, dst := x.content(st, s.ref, es), x.content(st, d.ref, es)
	if d.len == s.len && d.off == Zero && s.off == Zero && isConstArr(dst) {
		// the destination is what make gave: what lies beyond the copied
		// elements cannot be observed (re-slicing beyond the length is not
		// allowed), so it takes the source's contents as they are
		x.setContent(st, d.ref, es, src)
		return d.len
	}
	nc := x.fresh(st, "copied", dst.sort)
	i := BVar("i", SInt)
	sel := app("select", es, nc, i)
	st.assume(Forall([]*Term{i}, Eq(sel, Ite(And(Le(d.off, i), Lt(i, Add(d.off, n))), Select(src, Add(s.off, Sub(i, d.off))), Select(dst, i))), []*Term{sel}))
	x.setContent(st, d.ref, es, nc)
	return n
}
