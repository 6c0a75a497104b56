package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is the text of an SMT-LIB sort.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SSlice Sort = "Slice"
	SUnit  Sort = "Unit"
)

var arrParts = map[Sort][2]Sort{}
var arrMu sync.Mutex

func ArrSort(k, v Sort) Sort {
	s := Sort("(Array " + string(k) + " " + string(v) + ")")
	arrMu.Lock()
	arrParts[s] = [2]Sort{k, v}
	arrMu.Unlock()
	return s
}

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

// parts splits an array sort into index and element sort.
func (s Sort) parts() (Sort, Sort) {
	arrMu.Lock()
	p, ok := arrParts[s]
	arrMu.Unlock()
	if ok {
		return p[0], p[1]
	}
	body := string(s)[len("(Array ") : len(s)-1]
	depth, cut := 0, -1
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 && cut < 0 {
				cut = i
			}
		}
	}
	k, v := Sort(body[:cut]), Sort(body[cut+1:])
	arrMu.Lock()
	arrParts[s] = [2]Sort{k, v}
	arrMu.Unlock()
	return k, v
}

// Term is a hash-consed SMT term.
type Term struct {
	op    string // symbol, literal or operator
	args  []*Term
	sort  Sort
	id    int
	sym   bool // free symbol (declared constant)
	bvar  bool // bound variable
	bound []*Term
	pats  [][]*Term
	hasBV bool
}

var (
	internMu sync.Mutex
	interned = map[string]*Term{}
	nextTerm int
)

func key(op string, s Sort, args []*Term, flags string) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(s))
	b.WriteString(flags)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func intern(t *Term, k string) *Term {
	internMu.Lock()
	defer internMu.Unlock()
	if o, ok := interned[k]; ok {
		return o
	}
	nextTerm++
	t.id = nextTerm
	interned[k] = t
	return t
}

func app(op string, s Sort, args ...*Term) *Term {
	t := &Term{op: op, args: args, sort: s}
	for _, a := range args {
		if a == nil {
			panic("nil argument of " + op)
		}
		if a.hasBV {
			t.hasBV = true
		}
	}
	return intern(t, key(op, s, args, ""))
}

func Sym(name string, s Sort) *Term {
	return intern(&Term{op: name, sort: s, sym: true}, key(name, s, nil, "#sym"))
}

func BVar(name string, s Sort) *Term {
	return intern(&Term{op: name, sort: s, bvar: true, hasBV: true}, key(name, s, nil, "#bv"))
}

func Num(n int64) *Term {
	if n < 0 {
		return app("-", SInt, app(strconv.FormatUint(uint64(-n), 10), SInt))
	}
	return app(strconv.FormatInt(n, 10), SInt)
}

var (
	True  = app("true", SBool)
	False = app("false", SBool)
	Zero  = Num(0)
	One   = Num(1)
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) num() (int64, bool) {
	if t.sort != SInt {
		return 0, false
	}
	if len(t.args) == 0 && !t.sym && !t.bvar {
		n, err := strconv.ParseInt(t.op, 10, 64)
		return n, err == nil
	}
	if t.op == "-" && len(t.args) == 1 {
		if t.args[0].op == "9223372036854775808" {
			return -1 << 63, true
		}
		n, ok := t.args[0].num()
		return -n, ok
	}
	return 0, false
}

// addParts views t as base + constant.
func addParts(t *Term) (*Term, int64) {
	if n, ok := t.num(); ok {
		return nil, n
	}
	if t.op == "+" && len(t.args) == 2 {
		if n, ok := t.args[1].num(); ok {
			return t.args[0], n
		}
	}
	return t, 0
}

func Add(a, b *Term) *Term {
	ab, an := addParts(a)
	bb, bn := addParts(b)
	n := an + bn
	if (n < an) != (bn < 0) {
		return app("+", SInt, a, b)
	}
	switch {
	case ab == nil && bb == nil:
		return Num(n)
	case ab == nil:
		ab = bb
	case bb == nil:
	default:
		ab = app("+", SInt, ab, bb)
	}
	if n == 0 {
		return ab
	}
	return app("+", SInt, ab, Num(n))
}

func Sub(a, b *Term) *Term {
	if a == b {
		return Zero
	}
	if n, ok := b.num(); ok {
		return Add(a, Num(-n))
	}
	ab, an := addParts(a)
	bb, bn := addParts(b)
	if ab == bb {
		return Num(an - bn)
	}
	return app("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if x, ok := a.num(); ok {
		if y, ok := b.num(); ok {
			return Num(x * y)
		}
	}
	return app("*", SInt, a, b)
}

func Lt(a, b *Term) *Term {
	ab, an := addParts(a)
	bb, bn := addParts(b)
	if ab == bb {
		return BoolT(an < bn)
	}
	return app("<", SBool, a, b)
}

func Le(a, b *Term) *Term {
	ab, an := addParts(a)
	bb, bn := addParts(b)
	if ab == bb {
		return BoolT(an <= bn)
	}
	return app("<=", SBool, a, b)
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return app("not", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == True || seen[x] {
			continue
		}
		if x == False {
			return False
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return app("and", SBool, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == False || seen[x] {
			continue
		}
		if x == True {
			return True
		}
		seen[x] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return app("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return app("=>", SBool, a, b)
}

func isLit(t *Term) bool {
	_, ok := t.num()
	return ok || t == True || t == False || (t.sym && strings.HasPrefix(t.op, "strlit!"))
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("= on sorts %s and %s: %s ~ %s", a.sort, b.sort, a, b))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.sort == SInt {
		ab, an := addParts(a)
		bb, bn := addParts(b)
		if ab == bb && an != bn {
			return False
		}
	}
	if a.sort == SBool {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return app("ite", a.sort, c, a, b)
}

func distinctTerms(a, b *Term) bool {
	if isLit(a) && isLit(b) {
		return a != b
	}
	if a.sort == SInt {
		ab, an := addParts(a)
		bb, bn := addParts(b)
		return ab == bb && an != bn
	}
	return false
}

func Select(a, i *Term) *Term {
	_, v := a.sort.parts()
	for a.op == "store" && !a.sym {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctTerms(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if strings.HasPrefix(a.op, "(as const ") {
		return a.args[0]
	}
	return app("select", v, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return app("store", a.sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term {
	return app("(as const "+string(s)+")", s, v)
}

// Datatype constructors and selectors.
type dtField struct {
	name string
	sort Sort
}
type dtInfo struct {
	sort   Sort
	ctor   string
	fields []dtField
}

var (
	dtMu sync.Mutex
	dts  = map[Sort]*dtInfo{
		SSlice: {SSlice, "mkslice", []dtField{{"sref", SInt}, {"slen", SInt}, {"scap", SInt}}},
		SUnit:  {SUnit, "unit", nil},
	}
	ctorOf = map[string]*dtInfo{}
	dtOrd  = []Sort{SSlice, SUnit}
)

func init() {
	for _, d := range dts {
		ctorOf[d.ctor] = d
	}
}

func Mk(s Sort, args ...*Term) *Term {
	dtMu.Lock()
	d := dts[s]
	dtMu.Unlock()
	// eta: mk(f0(x), f1(x), ...) = x
	if len(args) > 0 {
		var base *Term
		ok := true
		for i, a := range args {
			if len(a.args) == 1 && a.op == d.fields[i].name && a.args[0].sort == s && (base == nil || base == a.args[0]) {
				base = a.args[0]
			} else {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return app(d.ctor, s, args...)
}

func Field(t *Term, i int) *Term {
	dtMu.Lock()
	d := dts[t.sort]
	dtMu.Unlock()
	if d == nil {
		panic("field of non-datatype " + string(t.sort))
	}
	if t.op == d.ctor && len(t.args) == len(d.fields) && len(t.args) > 0 {
		return t.args[i]
	}
	if t.op == "ite" {
		return Ite(t.args[0], Field(t.args[1], i), Field(t.args[2], i))
	}
	return app(d.fields[i].name, d.fields[i].sort, t)
}

func declDatatype(d *dtInfo) {
	dtMu.Lock()
	defer dtMu.Unlock()
	if _, ok := dts[d.sort]; !ok {
		dts[d.sort] = d
		ctorOf[d.ctor] = d
		dtOrd = append(dtOrd, d.sort)
	}
}

func datatypeDecls() string {
	dtMu.Lock()
	defer dtMu.Unlock()
	var b strings.Builder
	for _, s := range dtOrd {
		d := dts[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", d.sort, d.ctor)
		for _, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", f.name, f.sort)
		}
		b.WriteString("))))\n")
	}
	return b.String()
}

func Quant(q string, bound []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(bound) == 0 {
		return body
	}
	t := &Term{op: q, args: []*Term{body}, sort: SBool, bound: bound, pats: pats}
	fl := "#q"
	for _, b := range bound {
		fl += ":" + strconv.Itoa(b.id)
	}
	for _, p := range pats {
		fl += "!"
		for _, x := range p {
			fl += ":" + strconv.Itoa(x.id)
		}
	}
	fv := map[*Term]bool{}
	freeBV(t, map[*Term]bool{}, fv)
	t.hasBV = len(fv) > 0
	return intern(t, key(q, SBool, t.args, fl))
}

func freeBV(t *Term, bound map[*Term]bool, out map[*Term]bool) {
	if t.bvar {
		if !bound[t] {
			out[t] = true
		}
		return
	}
	if !t.hasBV && t.bound == nil {
		return
	}
	if t.bound != nil {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, b := range t.bound {
			nb[b] = true
		}
		bound = nb
	}
	for _, a := range t.args {
		freeBV(a, bound, out)
	}
}

func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", bound, body, pats...)
}
func Exists(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("exists", bound, body, pats...)
}

// subst replaces terms (typically symbols or bound variables) in t.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 && t.bound == nil {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, x := range p {
				y := rec(x)
				ch = ch || y != x
				np = append(np, y)
			}
			pats = append(pats, np)
		}
		r := t
		if ch {
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, pats [][]*Term) *Term {
	if t.bound != nil {
		return Quant(t.op, t.bound, args[0], pats...)
	}
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	if len(args) == 1 {
		dtMu.Lock()
		d := dts[args[0].sort]
		dtMu.Unlock()
		if d != nil {
			for i, f := range d.fields {
				if f.name == t.op {
					return Field(args[0], i)
				}
			}
		}
	}
	return app(t.op, t.sort, args...)
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil)
	return b.String()
}

func (t *Term) write(b *strings.Builder, names map[*Term]string) {
	if n, ok := names[t]; ok {
		b.WriteString(n)
		return
	}
	if t.bound != nil {
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			fmt.Fprintf(b, "(%s %s)", v.op, v.sort)
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].write(b, names)
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				x.write(b, names)
			}
			b.WriteString(")")
		}
		if len(t.pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		b.WriteString(t.op)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.op)
	for _, a := range t.args {
		b.WriteByte(' ')
		a.write(b, names)
	}
	b.WriteByte(')')
}

// script prints declarations for all free symbols of ts and definitions for
// large shared subterms, and returns the printed forms of ts.
func script(ts []*Term) (decls string, out []string) {
	syms := map[*Term]bool{}
	count := map[*Term]int{}
	size := map[*Term]int{}
	var order []*Term
	var walk func(*Term)
	walk = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		if t.sym {
			syms[t] = true
		}
		n := 1
		for _, a := range t.args {
			walk(a)
			n += size[a]
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
		if n > 1<<20 {
			n = 1 << 20
		}
		size[t] = n
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	var b strings.Builder
	declareOps(&b, order)
	var sl []*Term
	for s := range syms {
		sl = append(sl, s)
	}
	sort.Slice(sl, func(i, j int) bool { return sl[i].op < sl[j].op })
	for _, s := range sl {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", s.op, s.sort)
	}
	var lits []string
	for _, s := range sl {
		if strings.HasPrefix(s.op, "strlit!") {
			lits = append(lits, s.op)
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	names := map[*Term]string{}
	k := 0
	for _, t := range order {
		if t.op == "ite" && t.sort != SBool && !t.hasBV && t.bound == nil {
			// a constant, so that patterns can mention it
			var d strings.Builder
			t.write(&d, names)
			nm := fmt.Sprintf("$i%d", k)
			k++
			fmt.Fprintf(&b, "(declare-const %s %s)\n(assert (= %s %s))\n", nm, t.sort, nm, d.String())
			names[t] = nm
			continue
		}
		if count[t] > 1 && size[t] >= 6 && !t.hasBV && !(t.bound != nil) {
			var d strings.Builder
			t.write(&d, names)
			nm := fmt.Sprintf("$s%d", k)
			k++
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", nm, t.sort, d.String())
			names[t] = nm
		}
	}
	for _, t := range ts {
		var d strings.Builder
		t.write(&d, names)
		out = append(out, d.String())
	}
	return b.String(), out
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "+": true, "-": true, "*": true, "<": true, "<=": true, "store": true, "select": true}

// declareOps declares the sorts and the uninterpreted functions in use.
func declareOps(b *strings.Builder, order []*Term) {
	dtMu.Lock()
	known := map[string]bool{}
	for _, d := range dts {
		known[d.ctor] = true
		known[string(d.sort)] = true
		for _, f := range d.fields {
			known[f.name] = true
		}
	}
	dtMu.Unlock()
	sorts := map[string]bool{}
	addSort := func(s Sort) {
		for _, a := range strings.FieldsFunc(string(s), func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
			switch a {
			case "Array", "Int", "Bool", "Str":
				continue
			}
			if !known[a] && !customSorts[a] {
				sorts[a] = true
			}
		}
	}
	decl := map[string]string{}
	for _, t := range order {
		addSort(t.sort)
		for _, v := range t.bound {
			addSort(v.sort)
		}
		if len(t.args) == 0 || t.bound != nil || builtinOps[t.op] || known[t.op] || strings.HasPrefix(t.op, "(as const") {
			continue
		}
		var d strings.Builder
		fmt.Fprintf(&d, "(declare-fun %s (", t.op)
		for i, a := range t.args {
			if i > 0 {
				d.WriteByte(' ')
			}
			d.WriteString(string(a.sort))
		}
		fmt.Fprintf(&d, ") %s)\n", t.sort)
		decl[t.op] = d.String()
	}
	var ks []string
	for s := range sorts {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		fmt.Fprintf(b, "(declare-sort %s 0)\n", s)
	}
	ks = nil
	for o := range decl {
		ks = append(ks, o)
	}
	sort.Strings(ks)
	for _, o := range ks {
		b.WriteString(decl[o])
	}
}
