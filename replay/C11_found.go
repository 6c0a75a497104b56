package visigoth

import (
	"fmt"
	"strings"
	"testing"
)

// vcut analyses by cutting at spaces and keeping the first two bytes.
type vcut struct{}

func (vcut) Tokenize(s string) []string {
	var out []string
	for _, w := range strings.Fields(s) {
		if len(w) > 2 {
			w = w[:2]
		}
		if w != "no" {
			out = append(out, strings.ToLower(w))
		}
	}
	return out
}

func TestReplayC11(t *testing.T) {
	v := newVrep(t)
	es := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer(), NewStopWordsFilter(SpanishStopWords), NewSpanishStemmer(true))
	toks := []interface{ Tokenize(string) []string }{vtok{}, vcut{}, es}
	for v.more() {
		tk := toks[v.r.Intn(len(toks))]
		in := NewMemoryIndex("i", tk)
		m := newVidx()
		vocab := v.vocab()
		n := v.docs()
		for i := 0; i < n; i++ {
			id, c, s := v.doc(vocab)
			in.Put(NewDocRequestWith(id, c, s))
			m.docs = append(m.docs, Doc{id, c})
			m.stmts = append(m.stmts, s)
			if v.r.Intn(5) == 0 {
				in.Search(strings.Join(v.query(vocab), " "), HitsSearch)
			}
		}
		has := make([]map[string]bool, n)
		for i, s := range m.stmts {
			has[i] = map[string]bool{}
			for _, t := range tk.Tokenize(s) {
				has[i][t] = true
			}
		}
		type query struct {
			q    string
			want []string
		}
		var asked []query
		for k := 0; k < 15; k++ {
			q := strings.Join(v.query(vocab), " ")
			qt := tk.Tokenize(q)
			var want []SearchResult
			for d := range m.docs {
				all := len(qt) > 0
				for _, t := range qt {
					all = all && has[d][t]
				}
				if all {
					want = append(want, SearchResult{m.docs[d], len(qt)})
				}
			}
			asked = append(asked, query{q, vsort(want)})
			what := func() string { return fmt.Sprintf("%s (analysed by %T) searching %q", m.dump(), tk, q) }
			v.guard(what, func() {
				if got := in.Search(q, LinearSearch); !veq(vsort(got), vsort(want)) {
					v.fail("%s: linear search found %v want %v", what(), got, want)
				}
				if got := in.Search(q, HitsSearch); !veq(vsort(got), vsort(want)) {
					v.fail("%s: hits search found %v want %v", what(), got, want)
				}
			})
		}
		if n > 60 {
			continue
		}
		// the same questions asked at the same time
		wrong := make(chan string, 4)
		for w := 0; w < 4; w++ {
			go func(w int) {
				e, name := Engine(LinearSearch), "linear"
				if w%2 == 1 {
					e, name = HitsSearch, "hits"
				}
				bad := ""
				for k := 0; k < 30 && bad == ""; k++ {
					a := asked[(k*(w+1)+w)%len(asked)]
					if got := vsort(in.Search(a.q, e)); !veq(got, a.want) {
						bad = fmt.Sprintf("four at a time, %s search for %q found %v want %v", name, a.q, got, a.want)
					}
				}
				wrong <- bad
			}(w)
		}
		for w := 0; w < 4; w++ {
			if bad := <-wrong; bad != "" {
				v.fail("%s (analysed by %T) %s", m.dump(), tk, bad)
			}
		}
	}
}

func vsort(rs []SearchResult) []string {
	var out []string
	for _, r := range rs {
		out = append(out, fmt.Sprintf("%q", r))
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}
