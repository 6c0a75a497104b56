package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation: assume => goal.
type Obl struct {
	Fn     string
	Kind   string // ensures, requires, inv, bounds, nil, ...
	Label  string
	Pos    string
	Tags   map[string]bool // properties; nil means all
	assume []*Term
	goal   *Term
	trace  []string

	Verdict Verdict
	Backend string
	Note    string
}

func (o *Obl) Name() string {
	n := o.Fn + "/" + o.Kind
	if o.Label != "" {
		n += ":" + o.Label
	}
	if o.Pos != "" {
		n += "@" + o.Pos
	}
	return n
}

// Exec verifies one function.
type Exec struct {
	p       *Program
	ct      *Contracts
	pool    *Pool
	fc      *FuncContract
	fn      *ssa.Function
	obls    []*Obl
	quiet   int
	nofacts int
	applied *types.Signature
	deps    []depExit
	light   int
	steps   int
	hard    map[string]bool // loop invariants that took long to drop
	entry   *Snap
	A0      *Term
	env0    map[string]DV // parameter (and let) bindings of the contract
	cfg     execCfg

	terms    []*Obl // that loops end
	covers   []*Obl // states that must be reachable
	inlined  map[string]bool
	used     map[string]bool // contracts and models relied upon
	theory   *Theory
	loopInfo map[*ssa.Function]*fnLoops
	nexits   int
	lockPtrs map[string]bool
	loopLog  []string
	tags     map[string]bool
}

type execCfg struct {
	prop  string
	conc  bool
	debug bool
	boost int // budget multiplier
}

const maxSteps = 400000

func (x *Exec) fresh(st *State, base string, s Sort) *Term {
	st.fresh++
	return Sym(fmt.Sprintf("%s!%d", san(base), st.fresh), s)
}

// ---- heap ----

func sliceKey(elem Sort) string { return "S:" + string(elem) }
func mapKey(kind string, k, v Sort) string {
	return kind + ":" + string(k) + "," + string(v)
}

func (x *Exec) heap(st *State, key string, s Sort) *Term { return heapOf(st.heap, key, s) }

func heapOf(h map[string]*Term, key string, s Sort) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	return Sym("H0_"+san(key), s)
}

func sliceHeapSort(e Sort) Sort { return ArrSort(SInt, ArrSort(SInt, e)) }

func (x *Exec) content(st *State, ref *Term, elem Sort) *Term {
	return Select(x.heap(st, sliceKey(elem), sliceHeapSort(elem)), ref)
}

func (x *Exec) setContent(st *State, ref *Term, elem Sort, c *Term) {
	k := sliceKey(elem)
	st.heap[k] = Store(x.heap(st, k, sliceHeapSort(elem)), ref, c)
}

type mapSorts struct{ k, v Sort }

func mapSortsOf(t types.Type) mapSorts {
	m := t.Underlying().(*types.Map)
	return mapSorts{sortOf(m.Key()), sortOf(m.Elem())}
}
func (m mapSorts) dk() (string, Sort) {
	return mapKey("MD", m.k, m.v), ArrSort(SInt, ArrSort(m.k, SBool))
}
func (m mapSorts) vk() (string, Sort) {
	return mapKey("MV", m.k, m.v), ArrSort(SInt, ArrSort(m.k, m.v))
}
func (m mapSorts) ck() (string, Sort) { return mapKey("MC", m.k, m.v), ArrSort(SInt, SInt) }

func (m mapSorts) dom(h map[string]*Term, ref *Term) *Term {
	k, s := m.dk()
	return Select(heapOf(h, k, s), ref)
}
func (m mapSorts) val(h map[string]*Term, ref *Term) *Term {
	k, s := m.vk()
	return Select(heapOf(h, k, s), ref)
}
func (m mapSorts) card(h map[string]*Term, ref *Term) *Term {
	k, s := m.ck()
	return Select(heapOf(h, k, s), ref)
}
func (m mapSorts) set(st *State, ref, dom, val, card *Term) {
	k, s := m.dk()
	st.heap[k] = Store(heapOf(st.heap, k, s), ref, dom)
	if val != nil {
		k, s = m.vk()
		st.heap[k] = Store(heapOf(st.heap, k, s), ref, val)
	}
	k, s = m.ck()
	st.heap[k] = Store(heapOf(st.heap, k, s), ref, card)
}

func fieldKey(t types.Type, i int) (string, Sort) {
	u := t.Underlying().(*types.Struct)
	fs := fieldSort(u.Field(i).Type())
	return "F:" + san(typeName(t)) + "." + u.Field(i).Name(), ArrSort(SInt, fs)
}

// fieldSort is the sort a heap field is stored with; embedded library objects
// (a mutex by value) are represented by their address alone.
func fieldSort(t types.Type) Sort {
	if isOpaqueObj(t) {
		return SInt
	}
	return sortOf(t)
}

// isOpaqueObj: library types whose inner state is modelled elsewhere.
func isOpaqueObj(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "bytes", "strings", "sync/atomic", "github.com/mailru/easyjson/jwriter", "github.com/mailru/easyjson/jlexer":
		_, isStruct := n.Underlying().(*types.Struct)
		return isStruct
	}
	return false
}

func isObjType(t types.Type) bool {
	t = types.Unalias(t)
	if isOpaqueObj(t) {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, One)
	return r
}

// loadFacts are the representation facts of a value read from memory or
// received from a caller.
func (x *Exec) loadFacts(st *State, v *Term, t types.Type) {
	if x.nofacts > 0 {
		return
	}
	st.assume(typeFacts(v, t, st.alloc))
}

func typeFacts(v *Term, t types.Type, alloc *Term) *Term {
	if v.hasBV {
		return True
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		l, c, r := Field(v, 1), Field(v, 2), Field(v, 0)
		return And(Le(Zero, r), Lt(r, alloc), Le(Zero, l), Le(l, c), Le(c, Num(maxLen)), Imp(Eq(r, Zero), Eq(c, Zero)))
	case *types.Map, *types.Pointer, *types.Interface, *types.Signature:
		return And(Le(Zero, v), Lt(v, alloc))
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u)
			return And(Le(lo, v), Le(v, hi))
		}
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			if sortOf(t) == SUnit {
				break
			}
			fs = append(fs, typeFacts(Field(v, i), u.Field(i).Type(), alloc))
		}
		return And(fs...)
	}
	return True
}

func intRange(b *types.Basic) (*Term, *Term) {
	switch b.Kind() {
	case types.Int8:
		return Num(-128), Num(127)
	case types.Uint8:
		return Zero, Num(255)
	case types.Int16:
		return Num(-32768), Num(32767)
	case types.Uint16:
		return Zero, Num(65535)
	case types.Int32, types.UntypedRune:
		return Num(-1 << 31), Num(1<<31 - 1)
	case types.Uint32:
		return Zero, Num(1<<32 - 1)
	case types.Uint64, types.Uint, types.Uintptr:
		return Zero, app("18446744073709551615", SInt)
	}
	return Num(-maxInt - 1), Num(maxInt)
}

// ---- values ----

// T converts a value to a term.
func (x *Exec) T(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case StructV:
		var as []*Term
		u := v.typ.Underlying().(*types.Struct)
		if u.NumFields() == 0 {
			return zeroOf(v.typ)
		}
		for _, f := range v.fields {
			as = append(as, x.T(st, f))
		}
		return Mk(sortOf(v.typ), as...)
	case SliceV:
		if v.off == Zero {
			return Mk(SSlice, v.ref, v.len, v.cap)
		}
		// a window of another slice: an opaque slice whose contents mirror it cannot be
		// represented once written through, so this is only allowed for values that stay local
		fail("slice with an offset stored in memory")
	case *Clo:
		if v.fn == nil {
			return Zero
		}
		if len(v.binds) == 0 {
			t := Sym("fn!"+san(v.fn.RelString(nil)), SInt)
			if _, ok := st.clos[t]; !ok {
				st.clos[t] = v
				st.assume(And(Lt(Zero, t), Lt(t, x.A0)))
				x.closureFacts(st, v, t)
			}
			return t
		}
		for t, c := range st.clos {
			if c == v {
				return t
			}
		}
		t := x.newRef(st)
		st.clos[t] = v
		x.closureFacts(st, v, t)
		return t
	case IfaceV:
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			if t, ok := v.v.(*Term); ok {
				if _, known := st.ifaces[t]; !known {
					w := v
					st.ifaces[t] = &w
				}
				return t
			}
		}
		r := x.newRef(st)
		w := v
		st.ifaces[r] = &w
		return r
	case PField:
		if len(v.path) == 1 {
			// address of an embedded library object
			u := v.typ.Underlying().(*types.Struct)
			if isOpaqueObj(u.Field(v.path[0]).Type()) {
				return app("faddr_"+san(typeName(v.typ))+"_"+u.Field(v.path[0]).Name(), SInt, v.ref)
			}
		}
		fail("address of a field stored in memory")
	case PCell:
		fail("address of a local variable stored in memory")
	case PElem:
		fail("address of a slice element stored in memory")
	case nil:
		fail("missing value")
	}
	fail("value %T in memory", v)
	return nil
}

func asSlice(v Val) SliceV {
	switch v := v.(type) {
	case *Term:
		return SliceV{Field(v, 0), Zero, Field(v, 1), Field(v, 2)}
	case SliceV:
		return v
	}
	fail("not a slice: %T", v)
	return SliceV{}
}

func normSlice(s SliceV) Val {
	if s.off == Zero {
		return Mk(SSlice, s.ref, s.len, s.cap)
	}
	return s
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return &Clo{fn: v}
	case *ssa.Global:
		return PGlobal{v}
	case *ssa.Builtin:
		return v
	}
	r, ok := st.top().env[v]
	if !ok {
		fail("value %s of %s has no definition on this path", v.Name(), v.Parent())
	}
	return r
}

func constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		if _, ok := t.Underlying().(*types.Signature); ok {
			return &Clo{}
		}
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return Num(n)
		}
		return app(c.Value.ExactString(), SInt)
	}
	fail("constant %s", c)
	return nil
}

// fieldOf projects a field out of a struct value.
func (x *Exec) fieldOf(v Val, i int) Val {
	switch v := v.(type) {
	case StructV:
		return v.fields[i]
	case *Term:
		return Field(v, i)
	}
	fail("field of %T", v)
	return nil
}

func explode(v Val, t types.Type) StructV {
	if s, ok := v.(StructV); ok {
		return StructV{s.typ, append([]Val(nil), s.fields...)}
	}
	u := t.Underlying().(*types.Struct)
	tm := v.(*Term)
	r := StructV{typ: t}
	for i := 0; i < u.NumFields(); i++ {
		r.fields = append(r.fields, Field(tm, i))
	}
	return r
}

func implode(s StructV) Val {
	var as []*Term
	for _, f := range s.fields {
		t, ok := f.(*Term)
		if !ok {
			return s
		}
		as = append(as, t)
	}
	if len(as) == 0 {
		return zeroOf(s.typ)
	}
	return Mk(sortOf(s.typ), as...)
}

func getPath(v Val, t types.Type, path []int) (Val, types.Type) {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			switch w := v.(type) {
			case StructV:
				v = w.fields[i]
			case *Term:
				v = Field(w, i)
			}
			t = u.Field(i).Type()
		case *types.Array:
			v = v.(ArrV).elems[i]
			t = u.Elem()
		}
	}
	return v, t
}

func setPath(v Val, t types.Type, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := explode(v, t)
		s.fields[i] = setPath(s.fields[i], u.Field(i).Type(), path[1:], nv)
		return implode(s)
	case *types.Array:
		a := v.(ArrV)
		b := ArrV{a.elem, append([]Val(nil), a.elems...)}
		b.elems[i] = setPath(b.elems[i], u.Elem(), path[1:], nv)
		return b
	}
	fail("path into %s", t)
	return nil
}

func zeroVal(t types.Type) Val {
	t = types.Unalias(t)
	if isOpaqueObj(t) {
		return Zero
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if u.Len() > 4096 {
			fail("array of length %d", u.Len())
		}
		a := ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, zeroVal(u.Elem()))
		}
		return a
	case *types.Struct:
		s := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, zeroVal(u.Field(i).Type()))
		}
		if u.NumFields() == 0 {
			return zeroOf(t)
		}
		return implode(s)
	}
	return zeroOf(t)
}

// ---- memory access ----

type cellVal struct {
	v Val
	t types.Type
}

func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (x *Exec) load(st *State, p Val, t types.Type, in ssa.Instruction) Val {
	switch p := p.(type) {
	case PCell:
		x.accessCell(st, p.id, false, nil, in)
		c := st.cells[p.id].(cellVal)
		v, _ := getPath(c.v, c.t, p.path)
		return v
	case PGlobal:
		return x.loadGlobal(st, p.g)
	case PField:
		key, hs := fieldKey(p.typ, p.path[0])
		x.access(st, key, p.ref, false, in)
		u := p.typ.Underlying().(*types.Struct)
		v := Select(x.heap(st, key, hs), p.ref)
		ft := u.Field(p.path[0]).Type()
		r, rt := getPath(v, ft, p.path[1:])
		x.loadFacts(st, r.(*Term), rt)
		return r
	case PElem:
		sl := asSlice(p.sl)
		x.accessSlice(st, sl, p.elem, p.idx, false, in)
		v := Select(x.content(st, sl.ref, sortOf(p.elem)), Add(sl.off, p.idx))
		r, rt := getPath(v, p.elem, p.path)
		x.loadFacts(st, r.(*Term), rt)
		return r
	case *Term:
		if c, ok := x.loadJSON(st, p, t); ok {
			return c
		}
		if isObjType(t) && !isOpaqueObj(t) {
			x.nonNil(st, p, in)
			u := t.Underlying().(*types.Struct)
			s := StructV{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				s.fields = append(s.fields, x.load(st, PField{p, t, []int{i}}, u.Field(i).Type(), in))
			}
			if len(s.fields) == 0 {
				return zeroOf(t)
			}
			return implode(s)
		}
	}
	fail("load of %s through %T", t, p)
	return nil
}

func (x *Exec) store(st *State, p Val, v Val, t types.Type, in ssa.Instruction) {
	switch p := p.(type) {
	case PCell:
		c := st.cells[p.id].(cellVal)
		nv := setPath(c.v, c.t, p.path, v)
		x.accessCell(st, p.id, true, nv, in)
		st.cells[p.id] = cellVal{nv, c.t}
		return
	case PGlobal:
		x.storeGlobal(st, p.g, x.T(st, v))
		return
	case PField:
		x.ownText(st, v, in)
		key, hs := fieldKey(p.typ, p.path[0])
		x.access(st, key, p.ref, true, in)
		u := p.typ.Underlying().(*types.Struct)
		ft := u.Field(p.path[0]).Type()
		h := x.heap(st, key, hs)
		nv := v
		if len(p.path) > 1 {
			nv = setPath(Select(h, p.ref), ft, p.path[1:], v)
		}
		st.heap[key] = Store(h, p.ref, x.T(st, nv))
		return
	case PElem:
		sl := asSlice(p.sl)
		x.accessSlice(st, sl, p.elem, p.idx, true, in)
		es := sortOf(p.elem)
		c := x.content(st, sl.ref, es)
		i := Add(sl.off, p.idx)
		nv := v
		if len(p.path) > 0 {
			nv = setPath(Select(c, i), p.elem, p.path, v)
		}
		x.setContent(st, sl.ref, es, Store(c, i, x.T(st, nv)))
		return
	case *Term:
		if c, ok := v.(jsonVal); ok {
			x.nonNil(st, p, in)
			for i, k := range c.keys {
				st.heap[k] = Store(x.heap(st, k, ArrSort(SInt, c.vals[i].sort)), p, c.vals[i])
			}
			return
		}
		if z, ok := v.(*Term); ok && isOpaqueObj(t) && (z == Zero || z == zeroOf(t)) {
			x.nonNil(st, p, in)
			x.initOpaque(st, p, t)
			return
		}
		if isObjType(t) && !isOpaqueObj(t) {
			x.nonNil(st, p, in)
			s := explode(v, t)
			for i := range s.fields {
				x.store(st, PField{p, t, []int{i}}, s.fields[i], nil, in)
			}
			return
		}
	}
	fail("store of %s (%T) through %T", t, v, p)
}

func (x *Exec) nonNil(st *State, p *Term, in ssa.Instruction) {
	if strings.HasPrefix(p.op, "faddr_") {
		return // the address of a part of an object
	}
	x.oblig(st, "nil", "", Not(Eq(p, Zero)), in)
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	t := ptrElem(g.Type())
	gi := x.p.globals[g]
	s := fieldSort(t)
	if gi == nil || gi.mutable {
		key := "GV:" + san(g.RelString(nil))
		v := x.heap(st, key, s)
		x.loadFacts(st, v, t)
		return v
	}
	c := Sym("glob!"+san(g.Name()), s)
	x.loadFacts(st, c, t)
	if s == SInt && gi.isMap {
		ms := mapSortsOf(t)
		x.access(st, "glob", c, false, nil)
		st.assume(And(Lt(Zero, c), Lt(c, x.A0)))
		if len(gi.mapKeys) <= 64 {
			k := BVar("k", ms.k)
			var or []*Term
			for _, kv := range gi.mapKeys {
				or = append(or, Eq(k, constVal(kv.(*ssa.Const)).(*Term)))
			}
			// the contents a package-level map has after initialisation (never written later)
			d := ms.dom(x.entry.heap, c)
			st.assume(Forall([]*Term{k}, Eq(Select(d, k), Or(or...)), []*Term{Select(d, k)}))
		}
	}
	return c
}

func (x *Exec) storeGlobal(st *State, g *ssa.Global, v *Term) {
	st.heap["GV:"+san(g.RelString(nil))] = v
}

// ---- obligations ----

func (x *Exec) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() {
		return in.Parent().Name()
	}
	pp := x.p.prog.Fset.Position(p)
	f := pp.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

func (x *Exec) oblig(st *State, kind, label string, goal *Term, in ssa.Instruction) {
	x.obligT(st, kind, label, goal, in, nil)
}

func (x *Exec) obligT(st *State, kind, label string, goal *Term, in ssa.Instruction, tags map[string]bool) {
	if goal == True || st.dead {
		return
	}
	for _, a := range st.pc {
		if a == goal {
			return
		}
	}
	if tags != nil && x.cfg.prop != "" && !tags[x.cfg.prop] && kind != "ensures" {
		return // another property's; nothing here rests on it
	}
	if x.quiet == 0 {
		o := &Obl{Fn: x.fc.Name, Kind: kind, Label: label, Pos: x.pos(in), Tags: tags, assume: st.pc[:len(st.pc):len(st.pc)], goal: goal, trace: st.trace}
		if x.wants(o) {
			x.obls = append(x.obls, o)
		}
	}
	st.assume(goal)
}

// ---- control ----

func (x *Exec) block(st *State, b, prev *ssa.BasicBlock) {
	if st.dead {
		return
	}
	x.steps++
	if x.steps > maxSteps {
		fail("too many execution steps")
	}
	fr := st.top()
	li := x.loopsOf(fr.fn)
	// leaving loops of this frame
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.depth != len(st.frames) || l.lp.blocks[b] {
			break
		}
		if l.infer {
			return // exits are not followed while inferring
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if lp := li.byHeader[b]; lp != nil {
		if n := len(st.loops); n > 0 && st.loops[n-1].depth == len(st.frames) && st.loops[n-1].lp == lp {
			st.loops[n-1].back(st, prev)
			return
		}
		x.loop(st, lp, prev)
		return
	}
	x.phis(st, b, prev)
	x.instrs(st, b, firstNonPhi(b))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	k := predIndex(b, prev)
	var vs []Val
	n := firstNonPhi(b)
	for i := 0; i < n; i++ {
		vs = append(vs, x.val(st, b.Instrs[i].(*ssa.Phi).Edges[k]))
	}
	for i := 0; i < n; i++ {
		st.top().env[b.Instrs[i].(*ssa.Phi)] = vs[i]
	}
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.If:
			c := x.val(st, in.Cond).(*Term)
			x.branch(st, c, func(s *State) { x.block(s, b.Succs[0], b) }, func(s *State) { x.block(s, b.Succs[1], b) })
			return
		case *ssa.Jump:
			x.block(st, b.Succs[0], b)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			x.popFrame(st, res, in)
			return
		case *ssa.Panic:
			x.oblig(st, "panic", "", False, in)
			return
		case *ssa.Call:
			next := i + 1
			x.call(st, in, in.Common(), func(s *State, r Val) {
				s.top().env[in] = r
				x.instrs(s, b, next)
			})
			return
		case *ssa.Go:
			next := i + 1
			fn, args := x.calleeArgs(st, in.Common())
			x.spawn(st, in, in.Common(), fn, args, nil, func(s *State) { x.instrs(s, b, next) })
			return
		case *ssa.Defer:
			d := deferred{call: in.Call, in: in}
			d.fn, d.args = x.calleeArgs(st, &in.Call)
			fr := st.top()
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			next := i + 1
			x.runDefers(st, func(s *State) { x.instrs(s, b, next) })
			return
		case *ssa.Next:
			next := i + 1
			x.next(st, in, func(s *State, r Val) {
				s.top().env[in] = r
				x.instrs(s, b, next)
			})
			return
		case *ssa.TypeAssert:
			next := i + 1
			x.typeAssert(st, in, func(s *State, r Val) {
				s.top().env[in] = r
				x.instrs(s, b, next)
			})
			return
		default:
			x.simple(st, in)
		}
	}
	fail("block without terminator")
}

func (x *Exec) popFrame(st *State, res []Val, in ssa.Instruction) {
	fr := st.top()
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].depth == len(st.frames) {
		if st.loops[len(st.loops)-1].infer {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	st.frames = st.frames[:len(st.frames)-1]
	fr.ret(st, res)
}

func (x *Exec) runDefers(st *State, k func(*State)) {
	fr := st.top()
	if len(fr.defers) == 0 {
		k(st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.callVal(st, d.in, &d.call, d.fn, d.args, func(s *State, _ Val) { x.runDefers(s, k) })
}

// branch splits on c, dropping sides known to be infeasible.
func (x *Exec) branch(st *State, c *Term, yes, no func(*State)) {
	switch x.known(st, c) {
	case 1:
		yes(st)
		return
	case -1:
		no(st)
		return
	}
	if st.con != nil && st.con.task != nil {
		st.con.task.branched = append(st.con.task.branched, c)
	}
	nc := Not(c)
	fy, fn := true, true
	if x.light == 0 {
		v := x.pool.Prove(Query{preamble: x.preamble(), assume: x.axioms(append(st.pc[:len(st.pc):len(st.pc)], c)), goals: []*Term{False}, rlimit: 400_000})
		fy = v[0] != Proved
		if fy {
			v = x.pool.Prove(Query{preamble: x.preamble(), assume: x.axioms(append(st.pc[:len(st.pc):len(st.pc)], nc)), goals: []*Term{False}, rlimit: 400_000})
			fn = v[0] != Proved
		}
	}
	var other *State
	if fy && fn {
		other = st.clone()
	}
	if fy {
		st.assume(c)
		yes(st)
		if fn {
			other.assume(nc)
			no(other)
		}
		return
	}
	st.assume(nc)
	no(st)
}

func (x *Exec) known(st *State, c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return -1
	}
	nc := Not(c)
	for _, a := range st.pc {
		if a == c {
			return 1
		}
		if a == nc {
			return -1
		}
	}
	return 0
}

func (x *Exec) alloc(st *State, in *ssa.Alloc) Val {
	t := ptrElem(in.Type())
	if isOpaqueObj(t) || (in.Heap && isObjType(t)) {
		r := x.newRef(st)
		x.initObj(st, r, t)
		return r
	}
	id := st.nextCell
	st.nextCell++
	st.cells[id] = cellVal{zeroVal(t), t}
	return PCell{id, nil}
}

func (x *Exec) initObj(st *State, r *Term, t types.Type) {
	if isOpaqueObj(t) {
		x.initOpaque(st, r, t)
		return
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		k, s := fieldKey(t, i)
		st.heap[k] = Store(x.heap(st, k, s), r, x.T(st, zeroVal(u.Field(i).Type())))
		if isOpaqueObj(u.Field(i).Type()) {
			x.initOpaque(st, x.T(st, PField{r, t, []int{i}}), u.Field(i).Type())
		}
	}
}

func (x *Exec) simple(st *State, in ssa.Instruction) {
	env := st.top().env
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		env[in] = x.alloc(st, in)
	case *ssa.BinOp:
		env[in] = x.binop(st, in)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			env[in] = x.load(st, x.val(st, in.X), in.Type(), in)
		case token.NOT:
			env[in] = Not(x.val(st, in.X).(*Term))
		case token.SUB:
			env[in] = x.arith(st, Sub(Zero, x.val(st, in.X).(*Term)), in.Type(), in)
		default:
			fail("operator %s", in)
		}
	case *ssa.Store:
		x.store(st, x.val(st, in.Addr), x.val(st, in.Val), ptrElem(in.Addr.Type()), in)
	case *ssa.ChangeType:
		env[in] = x.val(st, in.X)
	case *ssa.ChangeInterface:
		env[in] = x.val(st, in.X)
	case *ssa.MakeInterface:
		env[in] = IfaceV{in.X.Type(), x.val(st, in.X)}
	case *ssa.Convert:
		env[in] = x.convert(st, x.val(st, in.X), in.X.Type(), in.Type(), in)
	case *ssa.Extract:
		env[in] = x.val(st, in.Tuple).(Tup)[in.Index]
	case *ssa.Field:
		env[in] = x.fieldOf(x.val(st, in.X), in.Field)
	case *ssa.FieldAddr:
		switch p := x.val(st, in.X).(type) {
		case PCell:
			env[in] = PCell{p.id, appendInt(p.path, in.Field)}
		case PElem:
			env[in] = PElem{p.sl, p.elem, p.idx, appendInt(p.path, in.Field)}
		case PField:
			env[in] = PField{p.ref, p.typ, appendInt(p.path, in.Field)}
		case *Term:
			x.nonNil(st, p, in)
			env[in] = PField{p, types.Unalias(ptrElem(in.X.Type())), []int{in.Field}}
		default:
			fail("field address through %T", p)
		}
	case *ssa.IndexAddr:
		env[in] = x.indexAddr(st, in)
	case *ssa.Index:
		x.index(st, in)
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.MakeClosure:
		c := &Clo{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(st, b))
		}
		env[in] = c
	case *ssa.MakeMap:
		r := x.newRef(st)
		ms := mapSortsOf(in.Type())
		ms.set(st, r, ConstArr(ArrSort(ms.k, SBool), False), nil, Zero)
		env[in] = r
	case *ssa.MakeSlice:
		l, c := x.val(st, in.Len).(*Term), x.val(st, in.Cap).(*Term)
		x.oblig(st, "makeslice", "", And(Le(Zero, l), Le(l, c)), in)
		st.assume(Le(c, Num(maxLen)))
		r := x.newRef(st)
		es := sortOf(in.Type().Underlying().(*types.Slice).Elem())
		x.setContent(st, r, es, ConstArr(ArrSort(SInt, es), zeroOf(in.Type().Underlying().(*types.Slice).Elem())))
		env[in] = Mk(SSlice, r, l, c)
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, in.Map).(*Term), in.Map.Type(), x.T(st, x.val(st, in.Key)), x.T(st, x.val(st, in.Value)), in)
	case *ssa.Range:
		x.rangeInit(st, in)
	case *ssa.Slice:
		env[in] = x.slice(st, in)
	default:
		fail("instruction %T %s", in, in)
	}
}

func appendInt(p []int, i int) []int { return append(append([]int(nil), p...), i) }

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) Val {
	i := x.val(st, in.Index).(*Term)
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		v := x.val(st, in.X)
		s := asSlice(v)
		x.oblig(st, "bounds", "", And(Le(Zero, i), Lt(i, s.len)), in)
		return PElem{v, t.Elem(), i, nil}
	case *types.Pointer:
		a := t.Elem().Underlying().(*types.Array)
		n, ok := i.num()
		if !ok {
			fail("array indexed by a variable")
		}
		if n < 0 || n >= a.Len() {
			x.oblig(st, "bounds", "", False, in)
			return nil
		}
		p, ok := x.val(st, in.X).(PCell)
		if !ok {
			fail("array that is not a local variable")
		}
		return PCell{p.id, appendInt(p.path, int(n))}
	}
	fail("index of %s", in.X.Type())
	return nil
}

func (x *Exec) index(st *State, in *ssa.Index) {
	i := x.val(st, in.Index).(*Term)
	switch v := x.val(st, in.X).(type) {
	case ArrV:
		n, ok := i.num()
		if !ok || n < 0 || n >= int64(len(v.elems)) {
			fail("array indexed by a variable")
		}
		st.top().env[in] = v.elems[n]
	case *Term:
		if v.sort == SStr {
			x.oblig(st, "bounds", "", And(Le(Zero, i), Lt(i, strlen(v))), in)
			st.top().env[in] = app("sbyte", SInt, v, i)
			return
		}
		fail("index of %s", v.sort)
	default:
		fail("index of %T", v)
	}
}

func strlen(s *Term) *Term {
	for k, v := range litTextSnapshot() {
		if v == s {
			return Num(int64(len(k)))
		}
	}
	return app("strlen", SInt, s)
}

func litTextSnapshot() map[string]*Term { return litText }

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	if sortOf(in.X.Type()) == SStr {
		s, i := x.val(st, in.X).(*Term), x.val(st, in.Index).(*Term)
		x.oblig(st, "bounds", "", And(Le(Zero, i), Lt(i, strlen(s))), in)
		r := app("sbyte", SInt, s, i)
		x.loadFacts(st, r, in.Type())
		st.top().env[in] = r
		return
	}
	m := x.val(st, in.X).(*Term)
	k := x.T(st, x.val(st, in.Index))
	ms := mapSortsOf(in.X.Type())
	x.accessMap(st, m, in.X.Type(), false, in)
	mt := in.X.Type().Underlying().(*types.Map)
	d := Select(ms.dom(st.heap, m), k)
	v := Select(ms.val(st.heap, m), k)
	st.assume(Imp(Eq(m, Zero), Not(d)))
	if f := typeFacts(v, mt.Elem(), st.alloc); f != True {
		st.assume(Imp(d, f))
	}
	st.assume(Imp(d, Le(One, ms.card(st.heap, m))))
	var r Val = Ite(d, v, zeroOf(mt.Elem()))
	if in.CommaOk {
		// split: almost every use branches on ok
		st.top().env[in] = Tup{r, d}
		return
	}
	st.top().env[in] = r
}

func (x *Exec) mapUpdate(st *State, m *Term, t types.Type, k, v *Term, in ssa.Instruction) {
	x.oblig(st, "nilmap", "", Not(Eq(m, Zero)), in)
	x.accessMap(st, m, t, true, in)
	ms := mapSortsOf(t)
	d, vals, c := ms.dom(st.heap, m), ms.val(st.heap, m), ms.card(st.heap, m)
	x.pubStore(st, m, t, v)
	ms.set(st, m, Store(d, k, True), Store(vals, k, v), Ite(Select(d, k), c, Add(c, One)))
}

func (x *Exec) mapDelete(st *State, m *Term, t types.Type, k *Term, in ssa.Instruction) {
	x.accessMap(st, m, t, true, in)
	ms := mapSortsOf(t)
	d, c := ms.dom(st.heap, m), ms.card(st.heap, m)
	st.assume(Imp(Eq(m, Zero), Not(Select(d, k))))
	ms.set(st, m, Store(d, k, False), nil, Ite(Select(d, k), Add(c, Num(-1)), c))
	// a removed entry need not be produced by a running iteration
	for id, cv := range st.cells {
		if it, ok := cv.(Iter); ok && it.ref != nil && mapSortsOf(it.mt) == ms {
			it.startDom = Ite(Eq(it.ref, m), Store(it.startDom, k, False), it.startDom)
			it.dirty = true
			st.cells[id] = it
		}
	}
}

func (x *Exec) rangeInit(st *State, in *ssa.Range) {
	id := st.nextCell
	st.nextCell++
	v := x.val(st, in.X).(*Term)
	if v.sort == SStr {
		st.cells[id] = Iter{str: v, pos: Zero}
	} else {
		mt := in.X.Type().Underlying().(*types.Map)
		ms := mapSortsOf(mt)
		x.accessMap(st, v, in.X.Type(), false, in)
		st.assume(x.cardFacts(st, ms, v))
		st.cells[id] = Iter{ref: v, mt: mt, visited: ConstArr(ArrSort(ms.k, SBool), False), cnt: Zero, startDom: ms.dom(st.heap, v)}
	}
	st.top().env[in] = PCell{id, nil}
}

// cardFacts: the size of a map is positive exactly if it has a key.
func (x *Exec) cardFacts(st *State, ms mapSorts, m *Term) *Term {
	d, c := ms.dom(st.heap, m), ms.card(st.heap, m)
	k := BVar("k", ms.k)
	return And(Le(Zero, c), Le(c, Num(maxLen)), Eq(Eq(c, Zero), Eq(d, ConstArr(ArrSort(ms.k, SBool), False))),
		Imp(Eq(m, Zero), Eq(c, Zero)),
		Forall([]*Term{k}, Imp(Eq(c, Zero), Not(Select(d, k))), []*Term{Select(d, k)}))
}

func (x *Exec) next(st *State, in *ssa.Next, k func(*State, Val)) {
	id := x.val(st, in.Iter).(PCell).id
	it := st.cells[id].(Iter)
	if it.str != nil {
		n := app("rcount", SInt, it.str)
		st.assume(And(Le(Zero, n), Le(n, strlen(it.str))))
		x.branch(st, Lt(it.pos, n), func(s *State) {
			p := it.pos
			idx, r := app("rpos", SInt, it.str, p), app("rval", SInt, it.str, p)
			nit := it
			nit.pos = Add(p, One)
			s.cells[id] = nit
			s.assume(And(Le(Zero, idx), Lt(idx, strlen(it.str)), Le(Zero, r), Le(r, Num(0x10ffff))))
			k(s, Tup{True, idx, r})
		}, func(s *State) {
			k(s, Tup{False, Zero, Zero})
		})
		return
	}
	ms := mapSortsOf(it.mt)
	x.accessMap(st, it.ref, it.mt, false, in)
	dom := ms.dom(st.heap, it.ref)
	other := st.clone()
	// another entry
	kk := x.fresh(st, "k", ms.k)
	if it.dirty {
		// an entry removed and put back may be produced again
		st.assume(And(Select(dom, kk), Or(Not(Select(it.visited, kk)), Not(Select(it.startDom, kk)))))
	} else {
		st.assume(And(Select(dom, kk), Not(Select(it.visited, kk))))
	}
	x.loadFacts(st, kk, it.mt.Key())
	v := Select(ms.val(st.heap, it.ref), kk)
	x.loadFacts(st, v, it.mt.Elem())
	nit := it
	nit.visited = Store(it.visited, kk, True)
	nit.cnt = Add(it.cnt, One)
	if it.dirty {
	} else if dom == it.startDom {
		st.assume(Lt(it.cnt, ms.card(st.heap, it.ref)))
	} else {
		st.assume(Imp(Eq(dom, it.startDom), Lt(it.cnt, ms.card(st.heap, it.ref))))
	}
	st.assume(Not(Eq(it.ref, Zero)))
	st.cells[id] = nit
	k(st, Tup{True, kk, v})
	// no entry left
	st = other
	b := BVar("k", ms.k)
	st.assume(Forall([]*Term{b}, Imp(And(Select(dom, b), Select(it.startDom, b)), Select(it.visited, b)), []*Term{Select(dom, b)}, []*Term{Select(it.visited, b)}))
	if !it.dirty {
		st.assume(Imp(Eq(dom, it.startDom), Eq(it.cnt, ms.card(st.heap, it.ref))))
	}
	k(st, Tup{False, zeroOf(it.mt.Key()), zeroOf(it.mt.Elem())})
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.val(st, in.Low).(*Term)
	} else {
		lo = Zero
	}
	if in.High != nil {
		hi = x.val(st, in.High).(*Term)
	}
	if in.Max != nil {
		mx = x.val(st, in.Max).(*Term)
	}
	v := x.val(st, in.X)
	if p, ok := v.(PCell); ok { // array literal
		c := st.cells[p.id].(cellVal)
		av, _ := getPath(c.v, c.t, p.path)
		a := av.(ArrV)
		n := Num(int64(len(a.elems)))
		r := x.newRef(st)
		es := sortOf(a.elem)
		ct := ConstArr(ArrSort(SInt, es), zeroOf(a.elem))
		for i, e := range a.elems {
			ct = Store(ct, Num(int64(i)), x.T(st, e))
		}
		x.setContent(st, r, es, ct)
		v = Mk(SSlice, r, n, n)
	}
	if t, ok := v.(*Term); ok && t.sort == SStr {
		if hi == nil {
			hi = strlen(t)
		}
		x.oblig(st, "bounds", "slice", And(Le(Zero, lo), Le(lo, hi), Le(hi, strlen(t))), in)
		return substr(t, lo, hi)
	}
	s := asSlice(v)
	if hi == nil {
		hi = s.len
	}
	c := s.cap
	if mx != nil {
		c = mx
		x.oblig(st, "bounds", "slice", And(Le(hi, mx), Le(mx, s.cap)), in)
	}
	// re-slicing beyond the length would expose contents that are not modelled;
	// clearing them is all right
	max := s.len
	if onlyCleared(in) {
		max = s.cap
	}
	x.oblig(st, "bounds", "slice", And(Le(Zero, lo), Le(lo, hi), Le(hi, max)), in)
	r := SliceV{s.ref, Add(s.off, lo), Sub(hi, lo), Sub(c, lo)}
	if n, ok := r.off.num(); ok && n == 0 {
		r.off = Zero
	}
	return normSlice(r)
}

func isConstArr(t *Term) bool { return strings.HasPrefix(t.op, "(as const ") }

func onlyCleared(v *ssa.Slice) bool {
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "clear" {
				continue
			}
		}
		return false
	}
	return true
}

func litOf(t *Term) (string, bool) {
	if !strings.HasPrefix(t.op, "strlit!") {
		return "", false
	}
	litMu.Lock()
	defer litMu.Unlock()
	for s, v := range litText {
		if v == t {
			return s, true
		}
	}
	return "", false
}

func substr(t, lo, hi *Term) *Term {
	if s, ok := litOf(t); ok {
		a, ok1 := lo.num()
		b, ok2 := hi.num()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(s)) {
			return StrLit(s[a:b])
		}
	}
	if lo == Zero && hi == strlen(t) {
		return t
	}
	return app("substr", SStr, t, lo, hi)
}

func (x *Exec) arith(st *State, r *Term, t types.Type, in ssa.Instruction) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return r
	}
	if ph := in.(ssa.Value); isRangeIndex(ph) {
		return r
	}
	lo, hi := intRange(b)
	x.oblig(st, "overflow", "", And(Le(lo, r), Le(r, hi)), in)
	return r
}

// isRangeIndex recognises the hidden counter of a range loop, bounded by a length.
func isRangeIndex(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	p, ok := b.X.(*ssa.Phi)
	return ok && p.Comment == "rangeindex"
}

func (x *Exec) binop(st *State, in *ssa.BinOp) Val {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		r := x.equal(st, a, b, in.X.Type())
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	ta, tb := x.T(st, a), x.T(st, b)
	if ta.sort == SStr {
		switch in.Op {
		case token.ADD:
			return strcat(ta, tb)
		case token.LSS:
			return strlt(ta, tb)
		case token.GTR:
			return strlt(tb, ta)
		case token.LEQ:
			return Not(strlt(tb, ta))
		case token.GEQ:
			return Not(strlt(ta, tb))
		}
		fail("string operator %s", in.Op)
	}
	if ta.sort != SInt {
		fail("operator %s on %s", in.Op, ta.sort)
	}
	switch in.Op {
	case token.LSS:
		return Lt(ta, tb)
	case token.GTR:
		return Lt(tb, ta)
	case token.LEQ:
		return Le(ta, tb)
	case token.GEQ:
		return Le(tb, ta)
	case token.ADD:
		return x.arith(st, Add(ta, tb), in.Type(), in)
	case token.SUB:
		return x.arith(st, Sub(ta, tb), in.Type(), in)
	case token.MUL:
		return x.arith(st, Mul(ta, tb), in.Type(), in)
	case token.QUO, token.REM:
		x.oblig(st, "divzero", "", Not(Eq(tb, Zero)), in)
		q := app("tdiv", SInt, ta, tb)
		st.assume(Imp(And(Le(Zero, ta), Lt(Zero, tb)), And(Le(Zero, q), Le(Mul(q, tb), ta), Lt(ta, Add(Mul(q, tb), tb)))))
		if in.Op == token.QUO {
			return q
		}
		return Sub(ta, Mul(q, tb))
	}
	r := x.fresh(st, "bits", SInt)
	x.loadFacts(st, r, in.Type())
	return r
}

func strcat(a, b *Term) *Term {
	sa, ok1 := litOf(a)
	sb, ok2 := litOf(b)
	if ok1 && ok2 {
		return StrLit(sa + sb)
	}
	return app("strcat", SStr, a, b)
}

func strlt(a, b *Term) *Term {
	if a == b {
		return False
	}
	return app("strlt", SBool, a, b)
}

func isNilSlice(t *Term) bool {
	return t.sort == SSlice && t.op == "mkslice" && t.args[0] == Zero
}

func (x *Exec) equal(st *State, a, b Val, t types.Type) *Term {
	if ia, ok := a.(IfaceV); ok {
		if tb, ok := b.(*Term); ok && tb == Zero {
			return False
		}
		if ib, ok := b.(IfaceV); ok {
			if !types.Identical(ia.typ, ib.typ) {
				return False
			}
			return x.equal(st, ia.v, ib.v, ia.typ)
		}
	}
	if _, ok := b.(IfaceV); ok {
		if ta, ok := a.(*Term); ok && ta == Zero {
			return False
		}
	}
	if ca, ok := a.(*Clo); ok {
		if tb, ok := b.(*Clo); ok && (ca.fn == nil || tb.fn == nil) {
			return BoolT(ca.fn == nil && tb.fn == nil)
		}
	}
	if cb, ok := b.(*Clo); ok && cb.fn == nil {
		return Eq(x.T(st, a), Zero)
	}
	if sa, ok := a.(SliceV); ok {
		return Eq(sa.ref, Zero)
	}
	if sb, ok := b.(SliceV); ok {
		return Eq(sb.ref, Zero)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		// slices compare with nil only
		ta, tb := a.(*Term), b.(*Term)
		if isNilSlice(tb) {
			return Eq(Field(ta, 0), Zero)
		}
		return Eq(Field(tb, 0), Zero)
	}
	return Eq(x.T(st, a), x.T(st, b))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, in ssa.Instruction) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		flo, fhi := intRange(fb)
		lo, hi := intRange(tb)
		if tb.Kind() == fb.Kind() || (leNum(lo, flo) && leNum(fhi, hi)) {
			return t
		}
		if n, ok := t.num(); ok && leNum(lo, Num(n)) && leNum(Num(n), hi) {
			return t
		}
		r := app("wrap_"+tb.Name(), SInt, t)
		st.assume(And(Le(lo, r), Le(r, hi), Imp(And(Le(lo, t), Le(t, hi)), Eq(r, t))))
		return r
	case isString(from) && isString(to):
		return v
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			s := asSlice(v)
			x.accessSlice(st, s, sl.Elem(), nil, false, in)
			c := x.content(st, s.ref, SInt)
			if eb := sl.Elem().Underlying().(*types.Basic); eb.Kind() == types.Int32 {
				return app("runestr", SStr, c, s.off, s.len)
			}
			r := strOf(c, s.off, s.len)
			st.assume(Eq(strlen(r), s.len))
			if s.off != Zero {
				x.suffixFacts(st, c, s.off, s.len, r)
			}
			return r
		}
		return app("chr", SStr, v.(*Term))
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s := v.(*Term)
			r := x.newRef(st)
			var n *Term
			if eb := sl.Elem().Underlying().(*types.Basic); eb.Kind() == types.Int32 {
				n = app("rcount", SInt, s)
				x.setContent(st, r, SInt, app("runes", ArrSort(SInt, SInt), s))
				i := BVar("i", SInt)
				rv := app("rval", SInt, s, i)
				sel := app("select", SInt, app("runes", ArrSort(SInt, SInt), s), i)
				st.assume(Forall([]*Term{i}, Eq(sel, rv), []*Term{sel}))
				st.assume(And(Le(Zero, n), Le(n, strlen(s))))
			} else {
				n = strlen(s)
				b := app("bytes", ArrSort(SInt, SInt), s)
				x.setContent(st, r, SInt, b)
				st.assume(Eq(app("str_of", SStr, b, Zero, n), s))
				st.assume(And(Le(Zero, n), Le(n, Num(maxLen))))
			}
			return Mk(SSlice, r, n, n)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	fail("conversion from %s to %s", from, to)
	return nil
}

// suffixFacts relates the characters of the bytes from off to those of the
// bytes from 0, if off is where a character starts: decoding UTF-8 from a
// character boundary yields the remaining characters (assumed of the language).
func (x *Exec) suffixFacts(st *State, c, off, n, r *Term) {
	if x.nofacts > 0 {
		return
	}
	whole := strOf(c, Zero, Add(off, n))
	k := app("bnd", SInt, whole, off)
	nw := app("rcount", SInt, whole)
	i := BVar("i", SInt)
	rv, rp := app("rval", SInt, r, i), app("rpos", SInt, r, i)
	ki := Add(k, i)
	in := And(Le(Zero, i), Lt(ki, nw))
	st.assume(Imp(And(Le(Zero, k), Lt(k, nw), Eq(app("rpos", SInt, whole, k), off)), And(
		Eq(app("rcount", SInt, r), Sub(nw, k)),
		Forall([]*Term{i}, Imp(in, Eq(rv, app("rval", SInt, whole, ki))), []*Term{rv}),
		Forall([]*Term{i}, Imp(in, Eq(Add(off, rp), app("rpos", SInt, whole, ki))), []*Term{rp}))))
}

func leNum(a, b *Term) bool {
	x, ok1 := a.num()
	y, ok2 := b.num()
	if ok1 && ok2 {
		return x <= y
	}
	return ok1 && !ok2 // the only non-int64 constant is the uint64 maximum
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, k func(*State, Val)) {
	v := x.val(st, in.X)
	if t, ok := v.(*Term); ok {
		if iv := st.ifaces[t]; iv != nil {
			v = *iv
		}
	}
	iv, ok := v.(IfaceV)
	if !ok {
		fail("type assertion on an unknown dynamic type")
	}
	var okv bool
	var res Val
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		okv = types.Implements(iv.typ, it)
		res = v
	} else {
		okv = types.Identical(iv.typ, in.AssertedType)
		res = iv.v
	}
	if !in.CommaOk {
		if !okv {
			x.oblig(st, "typeassert", "", False, in)
			return
		}
		k(st, res)
		return
	}
	if !okv {
		res = zeroVal(in.AssertedType)
	}
	k(st, Tup{res, BoolT(okv)})
}
