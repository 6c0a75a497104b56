package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val))

// models are the assumed contracts of library functions.
var models map[string]model

func pure(op string, s Sort) model {
	return func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		var as []*Term
		for _, a := range args {
			as = append(as, x.T(st, a))
		}
		k(st, app(op, s, as...))
	}
}

var more = map[string]model{}
var moreInvoke = map[string]func(x *Exec, st *State, in ssa.Instruction, recv *Term, args []Val, k func(*State, Val)){}

// modelOf finds the assumed contract of a library function.
func modelOf(f *ssa.Function) model {
	n := fullName(f)
	if m := models[n]; m != nil {
		return m
	}
	return more[n]
}

func init() {
	models = map[string]model{
		"strings.ToLower": pure("tolower", SStr),
		"github.com/kljensen/snowball/spanish.Stem": pure("stem", SStr),
		"unicode.IsLetter":                          pure("isletter", SBool),
		"unicode.IsNumber":                          pure("isnumber", SBool),
		"strings.FieldsFunc":                        fieldsFunc,
	}
	for _, n := range []string{"IsDigit", "IsSpace", "IsUpper", "IsLower", "IsPunct", "IsSymbol", "IsMark", "IsControl", "IsGraphic", "IsPrint", "IsTitle"} {
		models["unicode."+n] = pure("uni_"+n, SBool)
	}
	for _, n := range []string{"ToUpper", "TrimSpace", "ToTitle", "Title"} {
		models["strings."+n] = pure("str_"+n, SStr)
	}
}

// exitSt is one way a function value ran to its end.
type exitSt struct {
	st  *State
	res []Val
}

// runValue executes a function value on a copy of the state.
func (x *Exec) runValue(st *State, in ssa.Instruction, fn Val, t types.Type, args []Val) []exitSt {
	var out []exitSt
	s := st.clone()
	done := func(s *State, r Val) {
		if tp, ok := r.(Tup); ok {
			out = append(out, exitSt{s, tp})
		} else {
			out = append(out, exitSt{s, []Val{r}})
		}
	}
	switch f := fn.(type) {
	case *Clo:
		if f.fn == nil {
			x.oblig(s, "nil", "call", False, in)
			return nil
		}
		x.callFn(s, in, f.fn, f.binds, args, done)
	case *Term:
		if cl := s.clos[f]; cl != nil {
			x.callFn(s, in, cl.fn, cl.binds, args, done)
			break
		}
		x.oblig(s, "nil", "call", Not(Eq(f, Zero)), in)
		fc := x.funcTypeContract(t)
		if fc == nil {
			fail("call of an unknown function of type %s", t)
		}
		x.apply(s, fc, append([]Val{f}, args...), nil, t.Underlying().(*types.Signature), in, done)
	default:
		fail("call of %T", fn)
	}
	return out
}

// sameHeap: a callback must leave memory as it was.
func (x *Exec) sameHeap(st, e *State, in ssa.Instruction) {
	for k, v := range e.heap {
		if strings.HasPrefix(k, "G:") {
			continue
		}
		if o := heapOf(st.heap, k, v.sort); o != v {
			r := Sym("cb_r", SInt)
			if ix, _ := sortParts(v.sort); ix == SInt {
				x.oblig(e, "callback", "frame "+k, Imp(And(Lt(Zero, r), Lt(r, st.alloc)), Eq(Select(v, r), Select(o, r))), in)
			} else {
				x.oblig(e, "callback", "frame "+k, Eq(v, o), in)
			}
		}
	}
	for id, c := range st.cells {
		if !sameVal(c, e.cells[id]) {
			fail("callback changes a local variable")
		}
	}
}

func sortParts(s Sort) (Sort, Sort) {
	if !s.isArr() {
		return "", s
	}
	return s.parts()
}

// fieldsFunc: strings.FieldsFunc(s, f) is ff(s, K) where K is the set of
// characters f rejects. What f computes is proved for an arbitrary character
// against one of the contract's predicates.
func fieldsFunc(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
	text := args[0].(*Term)
	r := x.fresh(st, "rune", SInt)
	exits := x.runValue(st, in, args[1], f.Signature.Params().At(1).Type(), []Val{r})
	if len(exits) == 0 || len(x.fc.Preds) == 0 {
		fail("no predicate for the function given to FieldsFunc")
	}
	ev := func(s *State, p Pred, v *Term) *Term {
		m := map[string]DV{}
		for k, w := range x.envOf(st) {
			m[k] = w
		}
		m[p.Var] = DV{v, nil}
		t, err := x.ctx(s, m).evalBool(p.Expr)
		if err != nil {
			fail("predicate %s: %v", p.Label, err)
		}
		return t
	}
	pick := 0
	for i, p := range x.fc.Preds {
		ok := true
		for _, e := range exits {
			v := x.prove(e.st.pc, []*Term{Eq(e.res[0].(*Term), ev(st, p, r))}, 4_000_000)
			if v[0] != Proved {
				ok = false
				break
			}
		}
		if ok {
			pick = i
			break
		}
	}
	p := x.fc.Preds[pick]
	for _, e := range exits {
		x.sameHeap(st, e.st, in)
		x.oblig(e.st, "callback", p.Label, Eq(e.res[0].(*Term), ev(st, p, r)), in)
	}
	ks := ArrSort(SInt, SBool)
	K := x.fresh(st, "keep", ks)
	b := BVar("q", SInt)
	st.assume(Forall([]*Term{b}, Eq(Select(K, b), Not(ev(st, p, b))), []*Term{Select(K, b)}))
	k(st, x.seqResult(st, app("ff", "SqS", text, K)))
}

// seqResult is a new slice holding a given sequence of strings.
func (x *Exec) seqResult(st *State, s *Term) Val {
	ref := x.newRef(st)
	c := x.fresh(st, "seq", ArrSort(SInt, SStr))
	n := x.fresh(st, "seqlen", SInt)
	cp := x.fresh(st, "seqcap", SInt)
	st.assume(And(Le(Zero, n), Le(n, cp), Le(cp, Num(maxLen)), Eq(app("sq", "SqS", c, n), s)))
	x.setContent(st, ref, SStr, c)
	return Mk(SSlice, ref, n, cp)
}

// closureFacts: what a function value without loops computes, for predicates on characters.
func (x *Exec) closureFacts(st *State, c *Clo, t *Term) {
	sig := c.fn.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || len(c.binds) > 0 || len(c.fn.Blocks) == 0 {
		return
	}
	pb, ok := sig.Params().At(0).Type().Underlying().(*types.Basic)
	if !ok || pb.Kind() != types.Int32 {
		return
	}
	rb, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || rb.Kind() != types.Bool {
		return
	}
	if len(x.loopsOf(c.fn).byHeader) > 0 {
		return
	}
	r := Sym("cf_rune", SInt)
	n0 := st.fresh
	base := len(st.pc)
	x.quiet++
	defer func() { x.quiet-- }()
	var cases []*Term
	good := true
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); !ok {
					panic(e)
				}
				good = false
			}
		}()
		for _, e := range x.runValue(st, nil, c, sig, []Val{r}) {
			if e.st.fresh != n0 {
				good = false
				return
			}
			cases = append(cases, And(append(append([]*Term{}, e.st.pc[base:]...), e.res[0].(*Term))...))
		}
	}()
	if !good || len(cases) == 0 {
		return
	}
	b := BVar("r", SInt)
	acc := app("accepts", SBool, t, b)
	st.assume(Forall([]*Term{b}, Eq(acc, subst(Or(cases...), map[*Term]*Term{r: b})), []*Term{acc}))
}
