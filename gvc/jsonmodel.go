package main

import (
	"encoding/json"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// JSON through the easyjson library. A byte slice is, for the lexer, a sequence
// of tokens jk(D,0), jk(D,1), ... with their payloads; a writer collects such a
// sequence. What the library does with one token is assumed here; how the code
// under verification strings the calls together is what is proved.
//
// Token kinds: the punctuation bytes, '"' for strings, '0' for numbers (a whole
// number with value ji), '.' for other numbers, 'n' 't' 'f' for the keywords, 0
// for the end.

const jsonPkg = "github.com/mailru/easyjson/"

var (
	jIntArr  = ArrSort(SInt, SInt)
	jBoolArr = ArrSort(SInt, SBool)
	sJd      = Sort("Jd")
)

type jl struct {
	x   *Exec
	st  *State
	ref *Term
	in  ssa.Instruction
}

func (l jl) get(k string, s Sort) *Term { return Select(l.x.heap(l.st, "G:"+k, s), l.ref) }
func (l jl) set(k string, s Sort, v *Term) {
	if v.sort == SBool && v != True && v != False {
		n := l.x.fresh(l.st, k, SBool)
		l.st.assume(Eq(n, v))
		v = n
	}
	l.st.heap["G:"+k] = Store(l.x.heap(l.st, "G:"+k, s), l.ref, v)
}
func (l jl) pos() *Term     { return l.get("jpos", jIntArr) }
func (l jl) want() *Term    { return l.get("jwant", jIntArr) }
func (l jl) fetched() *Term { return l.get("jfetched", jBoolArr) }
func (l jl) first() *Term   { return l.get("jfirst", jBoolArr) }
func (l jl) bad() *Term     { return l.get("jbad", jBoolArr) }

func (l jl) doc() *Term {
	s := Select(l.x.heap(l.st, "F:Lexer.Data", ArrSort(SInt, SSlice)), l.ref)
	return app("jd", sJd, l.x.content(l.st, Field(s, 0), SInt), Field(s, 1))
}

func (l jl) kind() *Term { return app("jk", SInt, l.doc(), l.pos()) }

func isOneOf(k *Term, cs string) *Term {
	var or []*Term
	for _, c := range cs {
		or = append(or, Eq(k, Num(int64(c))))
	}
	return Or(or...)
}

// fetch makes the next token current.
func (l jl) fetch() {
	idle := Or(l.fetched(), l.bad())
	if idle == True {
		return
	}
	d, p, w := l.doc(), l.pos(), l.want()
	k := app("jk", SInt, d, p)
	took := And(isOneOf(k, ",:"), Eq(k, w))
	p1 := Ite(took, Add(p, One), p)
	w1 := Ite(took, Zero, w)
	k1 := app("jk", SInt, d, p1)
	closing := isOneOf(k1, "}]")
	ok := And(Not(Eq(k1, Zero)), Not(isOneOf(k1, ",:")),
		Ite(closing, Or(l.first(), Eq(w1, Num(','))), Eq(w1, Zero)))
	w2 := Ite(closing, Zero, w1)
	l.set("jfirst", jBoolArr, Ite(idle, l.first(), Or(l.first(), isOneOf(k1, "{["))))
	l.set("jbad", jBoolArr, Or(l.bad(), And(Not(idle), Not(ok))))
	l.set("jpos", jIntArr, Ite(idle, p, p1))
	l.set("jwant", jIntArr, Ite(idle, w, w2))
	l.set("jfetched", jBoolArr, True)
}

func (l jl) consume() {
	l.set("jpos", jIntArr, Ite(l.fetched(), Add(l.pos(), One), l.pos()))
	l.set("jfetched", jBoolArr, False)
}

func (l jl) fail(c *Term) { l.set("jbad", jBoolArr, Or(l.bad(), c)) }

type lexFn func(l jl, args []Val, k func(*State, Val))

func lexer(name string, f lexFn) {
	more["(*"+jsonPkg+"jlexer.Lexer)."+name] = func(x *Exec, st *State, in ssa.Instruction, fn *ssa.Function, args []Val, k func(*State, Val)) {
		r, ok := args[0].(*Term)
		if !ok {
			fail("lexer %T", args[0])
		}
		x.nonNil(st, r, in)
		f(jl{x, st, r, in}, args[1:], k)
	}
}

// split runs k separately for both outcomes of c.
func (l jl) split(c *Term, k func(jl, bool)) {
	if c == True || c == False {
		k(l, c == True)
		return
	}
	s := l.st.clone()
	s.assume(c)
	k(jl{l.x, s, l.ref, l.in}, true)
	l.st.assume(Not(c))
	k(l, false)
}

type jw struct {
	x   *Exec
	st  *State
	ref *Term
}

func (w jw) get(k string, s Sort) *Term { return Select(w.x.heap(w.st, "G:"+k, s), w.ref) }
func (w jw) set(k string, s Sort, v *Term) {
	w.st.heap["G:"+k] = Store(w.x.heap(w.st, "G:"+k, s), w.ref, v)
}

// put appends a token.
func (w jw) put(kind, str, num *Term) {
	n := w.get("jwn", jIntArr)
	w.set("jwk", ArrSort(SInt, jIntArr), Store(w.get("jwk", ArrSort(SInt, jIntArr)), n, kind))
	ss := ArrSort(SInt, ArrSort(SInt, SStr))
	if str != nil {
		w.set("jws", ss, Store(w.get("jws", ss), n, str))
	}
	if num != nil {
		w.set("jwi", ArrSort(SInt, jIntArr), Store(w.get("jwi", ArrSort(SInt, jIntArr)), n, num))
	}
	w.set("jwn", jIntArr, Add(n, One))
}

func (w jw) doc() *Term {
	return app("jtok", sJd, w.get("jwk", ArrSort(SInt, jIntArr)), w.get("jws", ArrSort(SInt, ArrSort(SInt, SStr))), w.get("jwi", ArrSort(SInt, jIntArr)), w.get("jwn", jIntArr))
}

// raw appends text the code writes itself; it has to consist of whole tokens.
func (w jw) raw(s string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.IndexByte("{}[],:", c) >= 0:
			w.put(Num(int64(c)), nil, nil)
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			var v string
			if j >= len(s) || json.Unmarshal([]byte(s[i:j+1]), &v) != nil {
				fail("part of a JSON string written as raw text: %q", s)
			}
			w.put(Num('"'), StrLit(v), nil)
			i = j + 1
		default:
			j := i
			for j < len(s) && strings.IndexByte("{}[],:\" \t\r\n", s[j]) < 0 {
				j++
			}
			if i == 0 || j == len(s) {
				fail("part of a JSON token written as raw text: %q", s)
			}
			switch t := s[i:j]; t {
			case "null", "true", "false":
				w.put(Num(int64(t[0])), nil, nil)
			default:
				n, err := strconv.ParseInt(t, 10, 62)
				if err != nil {
					fail("raw JSON text %q", s)
				}
				w.put(Num('0'), nil, Num(n))
			}
			i = j
		}
	}
}

func writer(name string, f func(w jw, args []Val, k func(*State, Val))) {
	more["(*"+jsonPkg+"jwriter.Writer)."+name] = func(x *Exec, st *State, in ssa.Instruction, fn *ssa.Function, args []Val, k func(*State, Val)) {
		r, ok := args[0].(*Term)
		if !ok {
			fail("writer %T", args[0])
		}
		x.nonNil(st, r, in)
		f(jw{x, st, r}, args[1:], k)
	}
}

// build is the bytes written, in a slice of their own; the buffer is empty afterwards.
func (w jw) build() *Term {
	r := w.x.newRef(w.st)
	n := w.x.fresh(w.st, "jsonlen", SInt)
	w.st.assume(And(Le(One, n), Le(n, Num(maxLen))))
	b := Mk(SSlice, r, n, n)
	w.st.assume(Eq(app("jd", sJd, w.x.content(w.st, r, SInt), n), w.doc()))
	w.set("jwn", jIntArr, Zero)
	return b
}

func (x *Exec) initJSON(st *State, r *Term, t types.Type) {
	switch t.(*types.Named).Obj().Name() {
	case "Lexer":
		l := jl{x, st, r, nil}
		l.set("jpos", jIntArr, Zero)
		l.set("jwant", jIntArr, Zero)
		l.set("jfetched", jBoolArr, False)
		l.set("jfirst", jBoolArr, False)
		l.set("jbad", jBoolArr, False)
		st.heap["F:Lexer.Data"] = Store(x.heap(st, "F:Lexer.Data", ArrSort(SInt, SSlice)), r, Mk(SSlice, Zero, Zero, Zero))
	case "Writer":
		w := jw{x, st, r}
		w.set("jwn", jIntArr, Zero)
		st.heap["F:Writer.Error"] = Store(x.heap(st, "F:Writer.Error", jIntArr), r, Zero)
	}
}

// jsonVal is a lexer or writer copied as a whole.
type jsonVal struct {
	keys []string
	vals []*Term
}

func (x *Exec) loadJSON(st *State, r *Term, t types.Type) (jsonVal, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), jsonPkg) {
		return jsonVal{}, false
	}
	var c jsonVal
	get := func(k string, s Sort) {
		c.keys = append(c.keys, k)
		c.vals = append(c.vals, Select(x.heap(st, k, ArrSort(SInt, s)), r))
	}
	switch n.Obj().Name() {
	case "Lexer":
		get("F:Lexer.Data", SSlice)
		get("G:jpos", SInt)
		get("G:jwant", SInt)
		get("G:jfetched", SBool)
		get("G:jfirst", SBool)
		get("G:jbad", SBool)
	case "Writer":
		get("F:Writer.Error", SInt)
		get("G:jwn", SInt)
		get("G:jwk", jIntArr)
		get("G:jws", ArrSort(SInt, SStr))
		get("G:jwi", jIntArr)
	default:
		return c, false
	}
	return c, true
}

// borrowed: a string that shares memory with the lexer's input.
func borrowed(t *Term) *Term { return app("borrowed", SStr, t) }

func hasOp(t *Term, op string, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if hasOp(a, op, seen) {
			return true
		}
	}
	return false
}

// ownText: a string kept in memory must not share the input's memory.
func (x *Exec) ownText(st *State, v Val, in ssa.Instruction) {
	switch v := v.(type) {
	case *Term:
		if hasOp(v, "borrowed", map[*Term]bool{}) {
			x.oblig(st, "owned", "text that shares the input's memory is kept", False, in)
		}
	case StructV:
		for _, f := range v.fields {
			x.ownText(st, f, in)
		}
	}
}

func init() {
	unit := func(f func(l jl, args []Val)) lexFn {
		return func(l jl, args []Val, k func(*State, Val)) {
			f(l, args)
			k(l.st, Tup{})
		}
	}
	lexer("IsStart", func(l jl, _ []Val, k func(*State, Val)) {
		k(l.st, And(Eq(l.pos(), Zero), Not(l.fetched())))
	})
	lexer("Ok", func(l jl, _ []Val, k func(*State, Val)) { k(l.st, Not(l.bad())) })
	lexer("Error", func(l jl, _ []Val, k func(*State, Val)) {
		e := l.x.fresh(l.st, "err", SInt)
		l.st.assume(And(Le(Zero, e), Lt(e, l.st.alloc), Eq(Eq(e, Zero), Not(l.bad()))))
		k(l.st, e)
	})
	for _, n := range []string{"AddError", "AddNonFatalError"} {
		lexer(n, unit(func(l jl, args []Val) { l.fail(True) }))
	}
	lexer("FetchToken", unit(func(l jl, _ []Val) { l.fetch() }))
	lexer("IsNull", func(l jl, _ []Val, k func(*State, Val)) {
		l.fetch()
		k(l.st, And(Not(l.bad()), Eq(l.kind(), Num('n'))))
	})
	lexer("Null", unit(func(l jl, _ []Val) {
		l.fetch()
		l.fail(Not(Eq(l.kind(), Num('n'))))
		l.consume()
	}))
	lexer("Skip", unit(func(l jl, _ []Val) {
		l.fetch()
		l.consume()
	}))
	lexer("Delim", unit(func(l jl, args []Val) {
		l.fetch()
		k := l.kind()
		l.fail(Not(And(Eq(k, args[0].(*Term)), isOneOf(k, "{}[]"))))
		l.consume()
	}))
	lexer("IsDelim", func(l jl, args []Val, k func(*State, Val)) {
		l.fetch()
		c := l.kind()
		d := Ite(isOneOf(c, "{}[]"), c, Zero)
		k(l.st, Or(l.bad(), Eq(d, args[0].(*Term))))
	})
	sep := func(c int64) lexFn {
		return unit(func(l jl, _ []Val) {
			l.set("jwant", jIntArr, Num(c))
			l.set("jfirst", jBoolArr, False)
		})
	}
	lexer("WantColon", sep(':'))
	lexer("WantComma", sep(','))
	lexer("Consumed", unit(func(l jl, _ []Val) {
		next := Ite(l.fetched(), Add(l.pos(), One), l.pos())
		l.fail(Not(Eq(app("jk", SInt, l.doc(), next), Zero)))
	}))
	lexer("SkipRecursive", unit(func(l jl, _ []Val) {
		l.fetch()
		d, p := l.doc(), l.pos()
		wf := app("jwf", SBool, d, p)
		nested := And(isOneOf(l.kind(), "{["), Not(l.bad()))
		anyP, anyB := l.x.fresh(l.st, "skipped", SInt), l.x.fresh(l.st, "skipbad", SBool)
		end := Ite(wf, app("je", SInt, d, p), anyP)
		l.fail(And(nested, Not(wf), anyB))
		l.set("jpos", jIntArr, Ite(nested, end, Add(p, One)))
		l.set("jfetched", jBoolArr, False)
	}))
	text := func(wrap func(*Term) *Term) lexFn {
		return func(l jl, _ []Val, k func(*State, Val)) {
			l.fetch()
			l.split(And(Not(l.bad()), Eq(l.kind(), Num('"'))), func(l jl, ok bool) {
				if !ok {
					l.fail(True)
					k(l.st, StrLit(""))
					return
				}
				s := app("js", SStr, l.doc(), l.pos())
				l.consume()
				k(l.st, wrap(s))
			})
		}
	}
	own := func(t *Term) *Term { return t }
	lexer("String", text(own))
	lexer("StringIntern", text(own))
	lexer("UnsafeString", text(borrowed))
	lexer("UnsafeFieldName", func(l jl, args []Val, k func(*State, Val)) {
		if skip, ok := args[0].(*Term); !ok || skip != False {
			l.x.oblig(l.st, "decoded", "field names are read without decoding escapes", False, l.in)
		}
		text(borrowed)(l, nil, k)
	})
	whole := func(lo, hi *Term) lexFn {
		return func(l jl, _ []Val, k func(*State, Val)) {
			l.fetch()
			n := app("ji", SInt, l.doc(), l.pos())
			l.split(And(Not(l.bad()), Eq(l.kind(), Num('0')), Le(lo, n), Le(n, hi)), func(l jl, ok bool) {
				if !ok {
					l.fail(True)
					l.consume()
					k(l.st, Zero)
					return
				}
				l.consume()
				k(l.st, n)
			})
		}
	}
	for _, b := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		n := types.Typ[b].Name()
		n = strings.ToUpper(n[:1]) + n[1:]
		lo, hi := intRange(types.Typ[b])
		lexer(n, whole(lo, hi))
		writer(n, func(w jw, args []Val, k func(*State, Val)) {
			w.put(Num('0'), nil, args[0].(*Term))
			k(w.st, Tup{})
		})
	}
	lexer("Bool", func(l jl, _ []Val, k func(*State, Val)) {
		l.fetch()
		b := And(Not(l.bad()), Eq(l.kind(), Num('t')))
		l.fail(Not(isOneOf(l.kind(), "tf")))
		l.consume()
		k(l.st, b)
	})

	writer("RawByte", func(w jw, args []Val, k func(*State, Val)) {
		n, ok := args[0].(*Term).num()
		if !ok {
			fail("a computed byte of JSON text")
		}
		w.raw(string(rune(n)))
		k(w.st, Tup{})
	})
	writer("RawString", func(w jw, args []Val, k func(*State, Val)) {
		s, ok := litOf(args[0].(*Term))
		if !ok {
			fail("computed JSON text")
		}
		w.raw(s)
		k(w.st, Tup{})
	})
	writer("String", func(w jw, args []Val, k func(*State, Val)) {
		t := args[0].(*Term)
		w.put(Num('"'), Ite(app("utf8valid", SBool, t), t, app("utf8fixed", SStr, t)), nil)
		k(w.st, Tup{})
	})
	writer("Bool", func(w jw, args []Val, k func(*State, Val)) {
		w.put(Ite(args[0].(*Term), Num('t'), Num('f')), nil, nil)
		k(w.st, Tup{})
	})
	writer("BuildBytes", func(w jw, args []Val, k func(*State, Val)) {
		if len(args) > 0 {
			if s, ok := args[0].(*Term); !ok || Field(s, 0) != Zero {
				fail("reused buffers")
			}
		}
		e := w.get2("F:Writer.Error")
		jl{w.x, w.st, w.ref, nil}.split(Eq(e, Zero), func(l jl, ok bool) {
			if ok {
				k(l.st, Tup{jw{w.x, l.st, w.ref}.build(), Zero})
			} else {
				k(l.st, Tup{Mk(SSlice, Zero, Zero, Zero), e})
			}
		})
	})
	more["(*"+jsonPkg+"buffer.Buffer).BuildBytes"] = func(x *Exec, st *State, in ssa.Instruction, fn *ssa.Function, args []Val, k func(*State, Val)) {
		p, ok := args[0].(PField)
		if !ok || typeName(p.typ) != "Writer" {
			fail("buffer %T", args[0])
		}
		if len(args) > 1 {
			if s, ok := args[1].(*Term); !ok || Field(s, 0) != Zero {
				fail("reused buffers")
			}
		}
		k(st, jw{x, st, p.ref}.build())
	}
}

func (w jw) get2(k string) *Term { return Select(w.x.heap(w.st, k, jIntArr), w.ref) }

// jsonHints gives the prover the terms it needs to see the objects in a token
// sequence whose kinds are known. They state nothing.
func jsonHints(d *Term) []*Term {
	K, S, n := d.args[0], d.args[1], d.args[3]
	base, end := addParts(n)
	pos := func(off int64) *Term {
		if base == nil {
			return Num(off)
		}
		return Add(base, Num(off))
	}
	read := func(a *Term) map[int64]*Term {
		m := map[int64]*Term{}
		for a.op == "store" {
			b, off := addParts(a.args[1])
			if b != base {
				break
			}
			if _, ok := m[off]; !ok {
				m[off] = a.args[2]
			}
			a = a.args[0]
		}
		return m
	}
	kinds, strs := read(K), read(S)
	at := func(off int64) int64 {
		if off >= end || kinds[off] == nil {
			return 0
		}
		if k, ok := kinds[off].num(); ok {
			return k
		}
		return 't'
	}
	keys := map[*Term]bool{}
	var objs [][2]int64
	var value func(off int64) int64
	value = func(off int64) int64 {
		switch k := at(off); k {
		case '"', '0', '.', 't', 'f', 'n':
			return off + 1
		case '{':
			m := int64(0)
			q := off + 1
			if at(q) == '}' {
				return q + 1
			}
			for {
				if at(q) != '"' || at(q+1) != ':' {
					return -1
				}
				if t := strs[q]; t != nil {
					keys[t] = true
				}
				if q = value(q + 2); q < 0 {
					return -1
				}
				m++
				if at(q) == '}' {
					objs = append(objs, [2]int64{off, m})
					return q + 1
				}
				if at(q) != ',' {
					return -1
				}
				q++
			}
		}
		return -1
	}
	lo := int64(1) << 40
	for off := range kinds {
		lo = min(lo, off)
	}
	value(lo)
	var out []*Term
	hint := func(t *Term) { out = append(out, app("jseen", SBool, t)) }
	for _, o := range objs {
		p, m := pos(o[0]), Num(o[1])
		hint(app("jobj", SBool, d, p, m))
		hint(app("jcommas", SBool, d, p, Num(o[1]-1)))
		hint(Eq(app("jf", SInt, d, p, m), Zero))
		for k := range keys {
			hint(Eq(app("jfind", SInt, d, p, m, k), Zero))
		}
	}
	return out
}
