package visigoth

import (
	"fmt"
	"sort"
	"testing"
)

func vsorted(rs []SearchResult) []SearchResult {
	rs = vcopy(rs)
	sort.SliceStable(rs, func(i, j int) bool { return fmt.Sprintf("%q", rs[i]) < fmt.Sprintf("%q", rs[j]) })
	return rs
}

func TestReplayC08(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		in, m := NewMemoryIndex("i", vtok{}), newVidx()
		vocab := v.vocab()
		v.fill(in, m, v.docs(), vocab)
		for k := 0; k < 20; k++ {
			q := v.query(vocab)
			what := func() string { return fmt.Sprintf("%shits search %q", m.dump(), q) }
			v.guard(what, func() {
				got := HitsSearch(vcopy(q), in)
				want := m.results(m.match(q), len(q))
				if !veq(vsorted(got), vsorted(want)) {
					v.fail("%s: got %v want (in any order) %v", what(), got, want)
				}
			})
		}
	}
}
