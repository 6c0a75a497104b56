package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// DV is a value of the contract language: a Go value with its type, or a
// purely mathematical term (t == nil).
type DV struct {
	v Val
	t types.Type
}

// evalCtx evaluates contract expressions in a state.
type evalCtx struct {
	x       *Exec
	p       *Program
	ct      *Contracts
	st      *State // for closures and interfaces; may be nil
	heap    map[string]*Term
	alloc   *Term
	old     *Snap
	loop    *Snap         // entry of the loop whose invariant this is
	loopEnv map[string]DV // what the template's variables stand for there
	A0      *Term
	env     map[string]DV
	depth   int
	errp    *evalErr
}

type evalErr struct{ msg string }

func evalFail(format string, a ...any) { panic(evalErr{fmt.Sprintf(format, a...)}) }

func (c *evalCtx) bind(n string, v DV) *evalCtx {
	d := *c
	d.env = make(map[string]DV, len(c.env)+1)
	for k, w := range c.env {
		d.env[k] = w
	}
	d.env[n] = v
	return &d
}

func (c *evalCtx) term(d DV) *Term {
	switch v := d.v.(type) {
	case *Term:
		return v
	case SliceV:
		if v.off == Zero {
			return Mk(SSlice, v.ref, v.len, v.cap)
		}
	case IfaceV:
		if t, ok := v.v.(*Term); ok {
			if _, ok := v.typ.Underlying().(*types.Pointer); ok {
				return t
			}
		}
		if c.st != nil && c.x != nil {
			return c.x.T(c.st, v)
		}
	default:
		if c.st != nil && c.x != nil {
			return c.x.T(c.st, v)
		}
	}
	evalFail("%T is not a term", d.v)
	return nil
}

func (c *evalCtx) boolean(e ast.Expr) *Term {
	t := c.term(c.eval(e))
	if t.sort != SBool {
		evalFail("not a formula")
	}
	return t
}

func (c *evalCtx) eval(e ast.Expr) DV {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, err := strconv.ParseInt(e.Value, 0, 64)
			if err != nil {
				fail("contract: %v", err)
			}
			return DV{Num(n), nil}
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return DV{StrLit(s), nil}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(e.Value[1:], '\'')
			return DV{Num(int64(r)), nil}
		}
	case *ast.Ident:
		switch e.Name {
		case "true":
			return DV{True, nil}
		case "false":
			return DV{False, nil}
		case "nil":
			return DV{Zero, types.Typ[types.UntypedNil]}
		}
		if v, ok := c.env[e.Name]; ok {
			return v
		}
		if s, ok := c.ct.GhostT[e.Name]; ok {
			return DV{heapOf(c.heap, "G:"+e.Name, c.sort(s)), nil}
		}
		if m, ok := c.ct.Macros[e.Name]; ok && len(m.Params) == 0 {
			return c.eval(m.Expr)
		}
		if k, ok := c.p.pkg.Pkg.Scope().Lookup(e.Name).(*types.Const); ok {
			if n, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				return DV{Num(n), nil}
			}
		}
		evalFail("unknown name %s", e.Name)
	case *ast.UnaryExpr:
		v := c.term(c.eval(e.X))
		switch e.Op {
		case token.NOT:
			return DV{Not(v), nil}
		case token.SUB:
			return DV{Sub(Zero, v), nil}
		}
	case *ast.BinaryExpr:
		return c.binary(e)
	case *ast.SelectorExpr:
		return c.selector(c.eval(e.X), e.Sel.Name)
	case *ast.IndexExpr:
		r := c.index(c.eval(e.X), c.eval(e.Index))
		if k, ok := e.X.(*ast.CallExpr); ok && r.t == nil && len(k.Args) == 1 {
			if f, ok := k.Fun.(*ast.Ident); ok && f.Name == "c" {
				if d := c.eval(k.Args[0]); d.t != nil { // an element of typed contents
					r.t = d.t.Underlying().(*types.Slice).Elem()
				}
			}
		}
		return r
	case *ast.CallExpr:
		return c.call(e)
	}
	evalFail("expression %T", e)
	return DV{}
}

func (c *evalCtx) binary(e *ast.BinaryExpr) DV {
	switch e.Op {
	case token.LAND:
		a := c.boolean(e.X)
		if a == False {
			return DV{False, nil}
		}
		return DV{And(a, c.boolean(e.Y)), nil}
	case token.LOR:
		a := c.boolean(e.X)
		if a == True {
			return DV{True, nil}
		}
		return DV{Or(a, c.boolean(e.Y)), nil}
	}
	x, y := c.eval(e.X), c.eval(e.Y)
	if e.Op == token.EQL || e.Op == token.NEQ {
		r := c.equal(x, y)
		if e.Op == token.NEQ {
			r = Not(r)
		}
		return DV{r, nil}
	}
	a, b := c.term(x), c.term(y)
	if a.sort == SStr && b.sort == SStr {
		switch e.Op {
		case token.LSS:
			return DV{strlt(a, b), nil}
		case token.LEQ:
			return DV{Not(strlt(b, a)), nil}
		}
	}
	if a.sort != SInt || b.sort != SInt {
		evalFail("operator %s on %s and %s", e.Op, a.sort, b.sort)
	}
	switch e.Op {
	case token.ADD:
		return DV{Add(a, b), nil}
	case token.SUB:
		return DV{Sub(a, b), nil}
	case token.MUL:
		return DV{Mul(a, b), nil}
	case token.LSS:
		return DV{Lt(a, b), nil}
	case token.LEQ:
		return DV{Le(a, b), nil}
	case token.GTR:
		return DV{Lt(b, a), nil}
	case token.GEQ:
		return DV{Le(b, a), nil}
	}
	evalFail("operator %s", e.Op)
	return DV{}
}

func isNilType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (c *evalCtx) equal(x, y DV) *Term {
	if x.t != nil && isNilType(x.t) {
		x, y = y, x
	}
	if y.t != nil && isNilType(y.t) {
		switch v := x.v.(type) {
		case SliceV:
			return Eq(v.ref, Zero)
		case *Clo:
			return BoolT(v.fn == nil)
		case IfaceV:
			return False
		}
		t := c.term(x)
		if t.sort == SSlice {
			return Eq(Field(t, 0), Zero)
		}
		return Eq(t, Zero)
	}
	a, b := c.term(x), c.term(y)
	if a.sort != b.sort {
		evalFail("= on %s and %s", a.sort, b.sort)
	}
	return Eq(a, b)
}

func structOf(t types.Type) (*types.Struct, types.Type, bool) {
	if t == nil {
		return nil, nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s, ok := p.Elem().Underlying().(*types.Struct)
		return s, types.Unalias(p.Elem()), ok
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, types.Unalias(t), ok
}

func (c *evalCtx) selector(v DV, name string) DV {
	if iv, ok := v.v.(IfaceV); ok {
		v = DV{iv.v, iv.typ}
	}
	s, st, ok := structOf(v.t)
	if !ok {
		evalFail("no field %s", name)
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != name {
			continue
		}
		if _, isPtr := v.t.Underlying().(*types.Pointer); isPtr {
			if t, ok := v.v.(*Term); ok {
				k, hs := fieldKey(st, i)
				return DV{Select(heapOf(c.heap, k, hs), t), f.Type()}
			}
			evalFail("pointer %T", v.v)
		}
		switch w := v.v.(type) {
		case StructV:
			return DV{w.fields[i], f.Type()}
		case *Term:
			return DV{Field(w, i), f.Type()}
		}
	}
	evalFail("no field %s in %s", name, v.t)
	return DV{}
}

func (c *evalCtx) index(x, i DV) DV {
	if x.t != nil {
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			s := asSlice(x.v)
			es := sortOf(u.Elem())
			ct := Select(heapOf(c.heap, sliceKey(es), sliceHeapSort(es)), s.ref)
			return DV{Select(ct, Add(s.off, c.term(i))), u.Elem()}
		case *types.Map:
			ms := mapSortsOf(u)
			return DV{Select(ms.val(c.heap, c.term(x)), c.term(i)), u.Elem()}
		}
	}
	t := c.term(x)
	if t.sort.isArr() {
		k, v := t.sort.parts()
		it := c.term(i)
		if it.sort != k {
			evalFail("index sort %s, want %s", it.sort, k)
		}
		return DV{Select(t, it), structTypeOf(v)}
	}
	evalFail("index of %s", t.sort)
	return DV{}
}

func (c *evalCtx) goType(s string) types.Type {
	tv, err := types.Eval(c.p.prog.Fset, c.p.pkg.Pkg, token.NoPos, s)
	if err != nil { // a type of an imported package
		if pk, n, ok := strings.Cut(strings.TrimPrefix(s, "*"), "."); ok {
			for _, im := range c.p.pkg.Pkg.Imports() {
				if o := im.Scope().Lookup(n); im.Name() == pk && o != nil {
					t := o.Type()
					if strings.HasPrefix(s, "*") {
						t = types.NewPointer(t)
					}
					return t
				}
			}
		}
	}
	if err != nil || tv.Type == nil {
		evalFail("type %s: %v", s, err)
	}
	return types.Unalias(tv.Type)
}

func (c *evalCtx) sort(s string) Sort { return parseSort(s, c.p) }

func parseSort(s string, p *Program) Sort {
	s = strings.TrimSpace(s)
	switch s {
	case "Int", "Ref", "Rune":
		return SInt
	case "Bool":
		return SBool
	case "Str":
		return SStr
	case "Slice":
		return SSlice
	case "E":
		if curElem != "" {
			return curElem
		}
	case "SeqE":
		if curElem != "" {
			return seqSort(curElem)
		}
	}
	if strings.HasPrefix(s, "Arr[") {
		ps := splitTop(s[4 : len(s)-1])
		return ArrSort(parseSort(ps[0], p), parseSort(ps[1], p))
	}
	if customSorts[s] {
		return Sort(s)
	}
	if p != nil {
		if tv, err := types.Eval(p.prog.Fset, p.pkg.Pkg, token.NoPos, s); err == nil && tv.Type != nil {
			return sortOf(tv.Type)
		}
	}
	evalFail("unknown sort %s", s)
	return ""
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

func (c *evalCtx) slice(d DV) (SliceV, types.Type) {
	if d.t == nil {
		if t, ok := d.v.(*Term); ok && t.sort == SSlice {
			return asSlice(t), nil
		}
		evalFail("not a slice")
	}
	u, ok := d.t.Underlying().(*types.Slice)
	if !ok {
		evalFail("not a slice: %s", d.t)
	}
	return asSlice(d.v), u.Elem()
}

// contents is the array of a slice's elements.
func (c *evalCtx) contents(d DV) *Term {
	s, et := c.slice(d)
	if et == nil {
		evalFail("contents of an untyped slice")
	}
	es := sortOf(et)
	ct := Select(heapOf(c.heap, sliceKey(es), sliceHeapSort(es)), s.ref)
	if s.off == Zero {
		return ct
	}
	return app("shift_"+san(string(es)), ct.sort, ct, s.off)
}

func (c *evalCtx) call(e *ast.CallExpr) DV {
	var name string
	var sortArg string
	switch f := e.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.IndexExpr:
		name = f.X.(*ast.Ident).Name
		sortArg = exprString(f.Index)
	default:
		evalFail("call of %s", exprString(e.Fun))
	}
	arg := func(i int) DV { return c.eval(e.Args[i]) }
	need := func(n int) {
		if len(e.Args) != n {
			evalFail("%s takes %d arguments", name, n)
		}
	}
	switch name {
	case "imp":
		need(2)
		a := c.boolean(e.Args[0])
		if a == False {
			return DV{True, nil}
		}
		return DV{Imp(a, c.boolean(e.Args[1])), nil}
	case "iff":
		need(2)
		return DV{Eq(c.boolean(e.Args[0]), c.boolean(e.Args[1])), nil}
	case "ite":
		need(3)
		a, b := arg(1), arg(2)
		t := a.t
		if t == nil || isNilType(t) {
			t = b.t
		}
		cond := c.boolean(e.Args[0])
		ta, tb := c.term(a), c.term(b)
		if ta.sort == SInt && tb.sort == SSlice {
			ta = Mk(SSlice, Zero, Zero, Zero)
		}
		if tb.sort == SInt && ta.sort == SSlice {
			tb = Mk(SSlice, Zero, Zero, Zero)
		}
		return DV{Ite(cond, ta, tb), t}
	case "old":
		need(1)
		d := *c
		if c.old == nil {
			evalFail("old outside a postcondition")
		}
		d.heap, d.alloc = c.old.heap, c.old.alloc
		return d.eval(e.Args[0])
	case "entry":
		// the value at the loop's entry
		need(1)
		if c.loop == nil {
			evalFail("entry outside a loop invariant")
		}
		d := *c
		d.heap, d.alloc = c.loop.heap, c.loop.alloc
		if len(c.loopEnv) > 0 {
			d.env = make(map[string]DV, len(c.env))
			for k, v := range c.env {
				d.env[k] = v
			}
			for k, v := range c.loopEnv {
				d.env[k] = v
			}
		}
		return d.eval(e.Args[0])
	case "forall", "exists":
		var bs []*Term
		d := c
		i := 0
		for ; i+1 < len(e.Args)-0 && i+2 <= len(e.Args)-1; i += 2 {
			id, ok := e.Args[i].(*ast.Ident)
			if !ok {
				break
			}
			ts := exprString(e.Args[i+1])
			var s Sort
			var gt types.Type
			switch ts {
			case "Int", "Ref", "Rune", "Bool", "Str":
				s = parseSort(ts, c.p)
			default:
				if _, isCall := e.Args[i+1].(*ast.CallExpr); isCall {
					evalFail("bad binder")
				}
				s = parseSort(ts, c.p)
				if ts == "E" || ts == "SeqE" {
					gt = structTypeOf(s)
				} else if !customSorts[ts] && !strings.HasPrefix(ts, "Arr") {
					gt = c.goType(ts)
				}
			}
			b := BVar(fmt.Sprintf("%s_%d_%s", id.Name, d.depth, san(string(s))), s)
			bs = append(bs, b)
			d = d.bind(id.Name, DV{b, gt})
			d.depth++
		}
		var pats [][]*Term
		for ; i < len(e.Args)-1; i++ {
			pc, ok := e.Args[i].(*ast.CallExpr)
			if !ok || pc.Fun.(*ast.Ident).Name != "pat" {
				evalFail("bad quantifier")
			}
			var ps []*Term
			for _, a := range pc.Args {
				ps = append(ps, d.term(d.eval(a)))
			}
			pats = append(pats, ps)
		}
		body := d.boolean(e.Args[len(e.Args)-1])
		if body == True || body == False {
			return DV{body, nil}
		}
		if len(pats) == 0 {
			pats = autoPats(bs, body)
		}
		return DV{Quant(name, bs, body, pats...), nil}
	case "len":
		need(1)
		a := arg(0)
		if a.t != nil {
			switch u := a.t.Underlying().(type) {
			case *types.Slice:
				return DV{asSlice(a.v).len, nil}
			case *types.Map:
				return DV{mapSortsOf(u).card(c.heap, c.term(a)), nil}
			}
		}
		t := c.term(a)
		switch {
		case t.sort == SStr:
			return DV{strlen(t), nil}
		case t.sort == SSlice:
			return DV{Field(t, 1), nil}
		}
		evalFail("len of %s", t.sort)
	case "cap":
		s, _ := c.slice(arg(0))
		return DV{s.cap, nil}
	case "ref":
		a := arg(0)
		if t, ok := a.v.(*Term); ok && t.sort == SSlice {
			return DV{Field(t, 0), nil}
		}
		if s, ok := a.v.(SliceV); ok {
			return DV{s.ref, nil}
		}
		return DV{c.term(a), nil}
	case "off":
		s, _ := c.slice(arg(0))
		return DV{s.off, nil}
	case "c":
		need(1)
		return DV{c.contents(arg(0)), nil}
	case "mem":
		// content heap of slices with the given element type
		s := c.sort(exprString(e.Args[0]))
		return DV{heapOf(c.heap, sliceKey(s), sliceHeapSort(s)), nil}
	case "elem":
		// elem(s, i): element of an untyped slice in memory
		return c.index(arg(0), arg(1))
	case "in":
		need(2)
		k, m := arg(0), arg(1)
		if m.t != nil {
			if u, ok := m.t.Underlying().(*types.Map); ok {
				return DV{Select(mapSortsOf(u).dom(c.heap, c.term(m)), c.term(k)), nil}
			}
		}
		return DV{Select(c.term(m), c.term(k)), nil}
	case "dom", "vals":
		m := arg(0)
		u, ok := types.Type(nil), false
		if m.t != nil {
			u = m.t.Underlying()
			_, ok = u.(*types.Map)
		}
		if !ok {
			evalFail("%s of a non-map", name)
		}
		ms := mapSortsOf(u)
		if name == "dom" {
			return DV{ms.dom(c.heap, c.term(m)), nil}
		}
		return DV{ms.val(c.heap, c.term(m)), nil}
	case "fresh":
		need(1)
		a := arg(0)
		r := c.refOf(a)
		return DV{Or(Eq(r, Zero), Le(c.A0, r)), nil}
	case "A0":
		return DV{c.A0, nil}
	case "isold":
		return DV{Lt(c.refOf(arg(0)), c.A0), nil}
	case "store":
		need(3)
		return DV{Store(c.term(arg(0)), c.term(arg(1)), c.term(arg(2))), nil}
	case "emptyset":
		return DV{ConstArr(ArrSort(c.sort(exprString(e.Args[0])), SBool), False), nil}
	case "constarr":
		v := c.term(arg(1))
		return DV{ConstArr(ArrSort(c.sort(exprString(e.Args[0])), v.sort), v), nil}
	case "cast":
		// cast(T, e): give a mathematical term a Go type
		t := c.goType(exprString(e.Args[0]))
		return DV{c.term(arg(1)), t}
	case "mk":
		t := c.goType(exprString(e.Args[0]))
		var as []*Term
		for i := 1; i < len(e.Args); i++ {
			as = append(as, c.term(arg(i)))
		}
		return DV{Mk(sortOf(t), as...), t}
	case "glob":
		g, ok := c.p.pkg.Members[exprString(e.Args[0])].(*ssa.Global)
		if !ok {
			evalFail("no global %s", exprString(e.Args[0]))
		}
		return DV{c.x.loadGlobal(c.st, g), ptrElem(g.Type())}
	case "min", "max":
		a, b := c.term(arg(0)), c.term(arg(1))
		if name == "min" {
			return DV{Ite(Le(a, b), a, b), nil}
		}
		return DV{Ite(Le(a, b), b, a), nil}
	case "lockset":
		// the locks of a protocol exist and are different ones
		a := arg(0)
		st, t, ok := structOf(a.t)
		if !ok {
			evalFail("lockset of %v", a.t)
		}
		var fs []*Term
		var ls []*Term
		for _, f := range c.ct.Protos[typeName(t)].Locks {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != f {
					continue
				}
				if _, ptr := st.Field(i).Type().Underlying().(*types.Pointer); ptr {
					l := c.term(c.selector(a, f))
					fs = append(fs, Not(Eq(l, Zero)))
					for _, o := range ls {
						fs = append(fs, Not(Eq(o, l)))
					}
					ls = append(ls, l)
				}
			}
		}
		return DV{And(fs...), nil}
	case "stream":
		// what a stream over a slice will yield
		iv, ok := arg(0).v.(IfaceV)
		if !ok {
			return DV{Sym("nostream", SSlice), c.goType("[]SearchResult")}
		}
		return DV{c.selector(DV{iv.v, iv.typ}, "items").v, c.goType("[]SearchResult")}
	case "streamnew":
		// the stream is at its start, without an error
		iv, ok := arg(0).v.(IfaceV)
		if !ok {
			return DV{False, nil}
		}
		d := DV{iv.v, iv.typ}
		return DV{And(Eq(c.term(c.selector(d, "cursor")), Num(-1)), Eq(c.term(c.selector(d, "error")), Zero)), nil}
	case "typed":
		// typed(v, T): the dynamic type of v is known to be T
		need(2)
		t := c.goType(exprString(e.Args[1]))
		v := arg(0)
		if iv, ok := v.v.(IfaceV); ok {
			return DV{BoolT(types.Identical(iv.typ, t)), nil}
		}
		if u, ok := v.v.(*Term); ok && c.st != nil && c.st.ifaces[u] != nil {
			return DV{BoolT(types.Identical(c.st.ifaces[u].typ, t)), nil}
		}
		return DV{False, nil}
	case "allocated":
		return DV{Lt(c.refOf(arg(0)), c.alloc), nil}
	}
	if m, ok := c.ct.Macros[name]; ok {
		if len(m.Params) != len(e.Args) {
			evalFail("%s takes %d arguments", name, len(m.Params))
		}
		d := *c
		d.env = map[string]DV{}
		for k, v := range c.env {
			d.env[k] = v
		}
		for i, p := range m.Params {
			d.env[p] = arg(i)
		}
		return d.eval(m.Expr)
	}
	var as []*Term
	var gts []types.Type
	for i := range e.Args {
		a := arg(i)
		as = append(as, c.term(a))
		gts = append(gts, a.t)
	}
	return DV{c.ct.Theory.apply(name, sortArg, as, c.p), nil}
}

func (c *evalCtx) refOf(a DV) *Term {
	if s, ok := a.v.(SliceV); ok {
		return s.ref
	}
	t := c.term(a)
	if t.sort == SSlice {
		return Field(t, 0)
	}
	return t
}

// autoPats picks triggers: the smallest select/uninterpreted applications that
// cover all bound variables.
func autoPats(bs []*Term, body *Term) [][]*Term {
	set := map[*Term]bool{}
	for _, b := range bs {
		set[b] = true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV && t.bound == nil {
			return
		}
		seen[t] = true
		if t.bound != nil {
			return // triggers are not taken from nested quantifiers
		}
		for _, a := range t.args {
			walk(a)
		}
		if triggerable(t) {
			cands = append(cands, t)
		}
	}
	walk(body)
	var nested func(t *Term)
	nested = func(t *Term) {
		if t.bound != nil {
			walk(t.args[0])
		}
		for _, a := range t.args {
			nested(a)
		}
	}
	covers := func(t *Term) int {
		fv := map[*Term]bool{}
		freeBV(t, map[*Term]bool{}, fv)
		n := 0
		for v := range fv {
			if !set[v] {
				return -1
			}
			n++
		}
		return n
	}
	var pats [][]*Term
	used := map[*Term]bool{}
	add := func(t *Term) {
		if !used[t] {
			used[t] = true
			pats = append(pats, []*Term{t})
		}
	}
	for _, t := range cands {
		if covers(t) == len(bs) {
			// skip if a subterm already covers
			sub := false
			for u := range used {
				if contains(t, u) {
					sub = true
				}
			}
			if !sub {
				add(t)
			}
		}
	}
	if len(pats) > 0 || len(bs) == 1 {
		if len(pats) > 4 {
			pats = pats[:4]
		}
		return pats
	}
	// multi-pattern: greedily cover
	var mp []*Term
	cov := map[*Term]bool{}
	for _, t := range cands {
		fv := map[*Term]bool{}
		freeBV(t, map[*Term]bool{}, fv)
		n, bad := 0, false
		for v := range fv {
			if !set[v] {
				bad = true
			} else if !cov[v] {
				n++
			}
		}
		if !bad && n > 0 {
			mp = append(mp, t)
			for v := range fv {
				cov[v] = true
			}
		}
	}
	if len(cov) == len(bs) {
		return [][]*Term{mp}
	}
	return nil
}

func contains(t, u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if contains(a, u) {
			return true
		}
	}
	return false
}

var interpreted = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "+": true, "-": true, "*": true, "<": true, "<=": true, "store": true, "true": true, "false": true}

func triggerable(t *Term) bool {
	if len(t.args) == 0 || interpreted[t.op] || strings.HasPrefix(t.op, "(as const") {
		return false
	}
	// no interpreted arithmetic or logic on bound variables inside a trigger
	ok := true
	var rec func(u *Term)
	rec = func(u *Term) {
		if !u.hasBV || u.bvar {
			return
		}
		if u.bound != nil || (interpreted[u.op] && u.op != "store") {
			ok = false
			return
		}
		for _, a := range u.args {
			rec(a)
		}
	}
	for _, a := range t.args {
		rec(a)
	}
	return ok
}

// evalBool evaluates a formula; an ill-typed formula yields an error.
func (c *evalCtx) evalBool(e ast.Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = fmt.Errorf("%s", r.msg)
			case unsupported:
				err = r
			default:
				panic(r)
			}
		}
	}()
	return c.boolean(e), nil
}
