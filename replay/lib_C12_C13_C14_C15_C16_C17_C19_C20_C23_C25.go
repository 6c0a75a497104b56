package visigoth

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/vago/streams"
)

// vrix is an index that only stores.
type vrix struct {
	made string
	docs []DocRequest
	tok  int // how often a search hands out each document
}

func (x *vrix) Put(d DocRequest) Index { x.docs = append(x.docs, d); return x }

func (x *vrix) Search(terms string, engine Engine) slices.Slice[SearchResult] {
	return engine([]string{terms}, x)
}
func (x *vrix) Len() int             { return len(x.docs) }
func (x *vrix) Indexed(string) []int { return nil }
func (x *vrix) Document(i int) Doc   { return Doc{Name: x.docs[i].Name, Content: x.docs[i].Content} }

func vsum(s string) int {
	n := len(s)
	for i := 0; i < len(s); i++ {
		n = n*31%100003 + int(s[i])
	}
	return n
}

// vskips is whether a search for the terms leaves out documents of the name.
func vskips(terms, name string) bool { return (vsum(terms)+len(name))%3 == 0 }

// vdouble finds documents, some of them twice.
func vdouble(tokens []string, ix Indexer) slices.Slice[SearchResult] {
	var out []SearchResult
	for i := 0; i < ix.Len(); i++ {
		d := ix.Document(i)
		if vskips(tokens[0], d.Name) {
			continue
		}
		out = append(out, SearchResult{Document: d, Hits: vsum(tokens[0])})
		if len(d.Name)%2 == 0 {
			out = append(out, SearchResult{Document: d, Hits: vsum(tokens[0])})
		}
	}
	return out
}

func vdoubled(docs []DocRequest, terms string) []string {
	var out []string
	for _, d := range docs {
		if vskips(terms, d.Name) {
			continue
		}
		s := fmt.Sprintf("%q/%q/%d", d.Name, d.Content, vsum(terms))
		out = append(out, s)
		if len(d.Name)%2 == 0 {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func vread(st streams.ReadStream[SearchResult]) []string {
	var out []string
	for st != nil && st.Next() {
		r := st.Data()
		out = append(out, fmt.Sprintf("%q/%q/%d", r.Document.Name, r.Document.Content, r.Hits))
	}
	sort.Strings(out)
	return out
}

// vrepo runs operations on a repository and on a model of it.
type vrepo struct {
	v     *vrep
	h     *IndexRepo
	ix    map[string]*vrix
	al    map[string][]string // sorted
	made  []*vrix
	want  map[*vrix][]DocRequest
	next  *vrix
	names []string
	mu    sync.Mutex
	log   []string
	tick  atomic.Int64
	done  chan struct{}
	held  []func() string // listings the caller kept
	quiet bool            // no checks between operations
}

func newVrepo(v *vrep, names []string) *vrepo {
	m := &vrepo{v: v, ix: map[string]*vrix{}, al: map[string][]string{}, want: map[*vrix][]DocRequest{}, names: names, done: make(chan struct{})}
	m.h = NewIndexRepo(func(name string) Index {
		x := &vrix{made: name}
		m.mu.Lock()
		m.made = append(m.made, x)
		m.mu.Unlock()
		return x
	})
	go m.watch()
	return m
}

// watch reports an operation that does not return.
func (m *vrepo) watch() {
	last, n := int64(-1), 0
	for {
		select {
		case <-m.done:
			return
		case <-time.After(time.Second):
		}
		if t := m.tick.Load(); t != last {
			last, n = t, 0
		} else if n++; n > 15 {
			fmt.Printf("FAILING-INPUT %s: does not return\n", m.trace())
			os.Exit(1)
		}
	}
}

func (m *vrepo) note(f string, a ...any) {
	m.mu.Lock()
	m.log = append(m.log, fmt.Sprintf(f, a...))
	m.mu.Unlock()
}

func (m *vrepo) trace() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	s := strings.Join(m.log, "; ")
	if len(s) > 3000 {
		s = s[:600] + " … " + s[len(s)-2000:]
	}
	return s
}

func (m *vrepo) bad(f string, a ...any) {
	m.v.t.Helper()
	m.v.fail("%s: %s", m.trace(), fmt.Sprintf(f, a...))
}

func vhas(l []string, s string) bool {
	i := sort.SearchStrings(l, s)
	return i < len(l) && l[i] == s
}

func vwith(l []string, s string) []string {
	if vhas(l, s) {
		return l
	}
	l = append(vcopy(l), s)
	sort.Strings(l)
	return l
}

func vwithout(l []string, s string) []string {
	out := []string{}
	for _, t := range l {
		if t != s {
			out = append(out, t)
		}
	}
	return out
}

func (m *vrepo) name() string { return m.names[m.v.r.Intn(len(m.names))] }

func (m *vrepo) run(f string, a []any, op func()) {
	m.note(f, a...)
	m.v.guard(m.trace, op)
	m.tick.Add(1)
}

func (m *vrepo) put(n string, d DocRequest) {
	before := len(m.made)
	m.run("put(%q, %q)", []any{n, d.Name}, func() { m.h.Put(n, d) })
	switch {
	case m.ix[n] != nil:
		m.want[m.ix[n]] = append(m.want[m.ix[n]], d)
	case m.al[n] != nil:
		for _, k := range m.al[n] {
			m.want[m.ix[k]] = append(m.want[m.ix[k]], d)
		}
	default:
		if len(m.made) != before+1 || m.made[before].made != n {
			m.bad("built %d indexes, want one named %q", len(m.made)-before, n)
		}
		m.ix[n] = m.made[before]
		m.want[m.ix[n]] = append(m.want[m.ix[n]], d)
		return
	}
	if len(m.made) != before {
		m.bad("built %d indexes, want none", len(m.made)-before)
	}
}

func (m *vrepo) alias(a, n string) {
	var r bool
	m.run("alias(%q, %q)", []any{a, n}, func() { r = m.h.Alias(a, n) })
	want := m.ix[n] != nil && !vhas(m.al[a], n)
	if want {
		m.al[a] = vwith(m.al[a], n)
	}
	if r != want {
		m.bad("reports %v, want %v", r, want)
	}
}

func (m *vrepo) unalias(a, n string) {
	var r bool
	m.run("unalias(%q, %q)", []any{a, n}, func() { r = m.h.UnAlias(a, n) })
	want := m.al[a] != nil && (n == "" || m.ix[n] != nil)
	if want {
		if n == "" {
			delete(m.al, a)
		} else if l := vwithout(m.al[a], n); len(l) == 0 {
			delete(m.al, a)
		} else {
			m.al[a] = l
		}
	}
	if r != want {
		m.bad("reports %v, want %v", r, want)
	}
}

func (m *vrepo) rename(o, n string) {
	var r bool
	m.run("rename(%q, %q)", []any{o, n}, func() { r = m.h.Rename(o, n) })
	want := m.ix[o] != nil
	if want && o != n {
		x := m.ix[o]
		delete(m.ix, o)
		m.ix[n] = x
		for a, l := range m.al {
			if vhas(l, o) {
				m.al[a] = vwith(vwithout(l, o), n)
			}
		}
	}
	if r != want {
		m.bad("reports %v, want %v", r, want)
	}
}

func (m *vrepo) drop(n string) {
	var r bool
	m.run("drop(%q)", []any{n}, func() { r = m.h.Drop(n) })
	want := m.ix[n] != nil
	if want {
		delete(m.ix, n)
		for a, l := range m.al {
			if k := vwithout(l, n); len(k) == 0 {
				delete(m.al, a)
			} else {
				m.al[a] = k
			}
		}
	}
	if r != want {
		m.bad("reports %v, want %v", r, want)
	}
}

func (m *vrepo) search(n, terms string) {
	var st streams.ReadStream[SearchResult]
	var err error
	var got []string
	m.run("search(%q, %q)", []any{n, terms}, func() {
		st, err = m.h.Search(n, terms, vdouble)
		if err == nil {
			got = vread(st)
		}
	})
	if m.ix[n] == nil && m.al[n] == nil {
		if err == nil {
			m.bad("no error")
		}
		return
	}
	if err != nil {
		m.bad("error %v", err)
	}
	var docs []DocRequest
	if m.ix[n] != nil {
		docs = m.want[m.ix[n]]
	} else {
		for _, k := range m.al[n] {
			docs = append(docs, m.want[m.ix[k]]...)
		}
	}
	if want := vdoubled(docs, terms); !veq(got, want) {
		m.bad("found %v, want %v", got, want)
	}
}

func (m *vrepo) list(edit bool) {
	var l []string
	m.run("list()", nil, func() { l = m.h.List() })
	orig := vcopy(l)
	s := vcopy(l)
	sort.Strings(s)
	var want []string
	for k := range m.ix {
		want = append(want, k)
	}
	sort.Strings(want)
	if !veq(s, want) {
		m.bad("lists %q, want %q", s, want)
	}
	if !edit {
		return
	}
	if m.v.r.Intn(2) == 0 {
		m.held = append(m.held, func() string {
			if !veq(l, orig) {
				return fmt.Sprintf("the list %q became %q", orig, l)
			}
			return ""
		})
		return
	}
	m.note("overwrite the list")
	for i := range l {
		l[i] = "overwritten"
	}
	_ = append(l, "appended")
}

func vrow(r AliasesResultRow) string { return fmt.Sprintf("%q→%q", r.Alias, r.Indices) }

func (m *vrepo) aliases(edit bool) {
	var res AliasesResult
	m.run("aliases()", nil, func() { res = m.h.ListAliases() })
	var got, want, orig []string
	for _, r := range res.Aliases {
		orig = append(orig, vrow(r))
		s := vcopy(r.Indices)
		sort.Strings(s)
		got = append(got, vrow(AliasesResultRow{r.Alias, s}))
	}
	for a, l := range m.al {
		want = append(want, vrow(AliasesResultRow{a, l}))
	}
	sort.Strings(got)
	sort.Strings(want)
	if !veq(got, want) {
		m.bad("lists %v, want %v", got, want)
	}
	if !edit {
		return
	}
	if m.v.r.Intn(2) == 0 {
		m.held = append(m.held, func() string {
			for i, r := range res.Aliases {
				if vrow(r) != orig[i] {
					return fmt.Sprintf("the listed row %s became %s", orig[i], vrow(r))
				}
			}
			return ""
		})
		return
	}
	m.note("overwrite the aliases")
	for i, r := range res.Aliases {
		_ = append(r.Indices, "appended")
		for j := range r.Indices {
			r.Indices[j] = "overwritten"
		}
		res.Aliases[i] = AliasesResultRow{}
	}
}

func (m *vrepo) has(n string) {
	var a, b bool
	m.run("has(%q)", []any{n}, func() { a, b = m.h.Has(n), m.h.HasAlias(n) })
	if a != (m.ix[n] != nil) || b != (m.al[n] != nil) {
		m.bad("has is %v and has-alias is %v", a, b)
	}
}

// check compares everything observable.
func (m *vrepo) check() {
	n := len(m.log)
	m.list(false)
	m.aliases(false)
	for _, x := range m.made {
		if w := m.want[x]; !veq(x.docs, w) {
			m.bad("the index built as %q stores %d documents %v, want %d", x.made, len(x.docs), x.docs, len(w))
		}
	}
	for _, f := range m.held {
		if s := f(); s != "" {
			m.bad("%s", s)
		}
	}
	m.mu.Lock()
	m.log = m.log[:n]
	m.mu.Unlock()
}

// step runs one operation; weights favour the operations of the property.
func (m *vrepo) step(w []int) {
	r := m.v.r
	total := 0
	for _, k := range w {
		total += k
	}
	p := r.Intn(total)
	op := 0
	for p >= w[op] {
		p -= w[op]
		op++
	}
	switch op {
	case 0:
		id := fmt.Sprintf("d%d", r.Intn(12))
		if r.Intn(4) == 0 {
			id = m.v.str(5)
		}
		d := NewDocRequestWith(id, m.v.str(6), m.v.str(6))
		d.MimeType = MimeType(r.Intn(4))
		m.put(m.name(), d)
	case 1:
		m.alias(m.name(), m.name())
	case 2:
		n := m.name()
		if r.Intn(6) == 0 {
			n = ""
		}
		m.unalias(m.name(), n)
	case 3:
		m.rename(m.name(), m.name())
	case 4:
		m.drop(m.name())
	case 5:
		m.search(m.name(), m.v.str(3))
	case 6:
		m.list(true)
	case 7:
		m.aliases(true)
	case 8:
		m.has(m.name())
	case 9:
		m.run("string()", nil, func() { _ = m.h.String() })
	}
}

// vnames picks the names of a run.
func (v *vrep) names() []string {
	k := []int{1, 2, 3, 4, 5, 6, 8, 12, 30, 150}[v.r.Intn(10)]
	var out []string
	for i := 0; i < k; i++ {
		out = append(out, fmt.Sprintf("n%d", i))
	}
	if v.r.Intn(3) == 0 {
		odd := []string{"", " ", "N0", "n0 ", "a/b", "_all", "*", "ñ", "\xff", "n00", "N1", "n", "n1.n2", "n1,n2"}
		for i := 0; i < 3; i++ {
			out = append(out, odd[v.r.Intn(len(odd))])
		}
	}
	if v.r.Intn(4) == 0 {
		out = append(out, v.str(6))
	}
	if v.r.Intn(8) == 0 {
		out = append(out, strings.Repeat("n", v.size(400)))
	}
	return out
}

// vops: put alias unalias rename drop search list aliases has string
func (v *vrep) repos(w []int) {
	for v.more() {
		m := newVrepo(v, v.names())
		if v.r.Intn(2) == 0 { // start with many indexes and aliases
			for _, n := range m.names {
				if v.r.Intn(3) > 0 {
					m.put(n, NewDocRequest("first", n))
				}
			}
			for i := v.r.Intn(1 + 3*len(m.names)); i > 0; i-- {
				m.alias(m.name(), m.name())
			}
		}
		if v.r.Intn(10) == 0 && len(m.names) > 1 { // one alias with many members
			for _, n := range m.names[1:] {
				m.put(n, NewDocRequest("second", n))
				m.alias(m.names[0], n)
			}
		}
		m.check()
		for n := 1 + v.size(120); n > 0; n-- {
			m.step(w)
			if len(m.names) < 20 || v.r.Intn(10) == 0 {
				m.check()
			}
		}
		for _, n := range m.names {
			m.has(n)
			m.search(n, "end")
		}
		m.check()
		close(m.done)
	}
}
