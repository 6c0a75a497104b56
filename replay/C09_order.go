package visigoth

import (
	"fmt"
	"sort"
	"testing"
)

func TestReplayC09(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		in, m := NewMemoryIndex("i", vtok{}), newVidx()
		vocab := 1 + v.r.Intn(3)
		n := v.docs()
		for i := 0; i < n; i++ {
			id, c, s := v.doc(vocab)
			switch v.r.Intn(5) {
			case 0:
				id = fmt.Sprintf("doc-%d", v.r.Intn(200))
			case 1:
				id = v.str(10)
			case 2:
				id = fmt.Sprint(v.r.Intn(200))
			}
			in.Put(NewDocRequestWith(id, c, s))
			m.put(id, c, s)
		}
		for k := 0; k < 10; k++ {
			q := v.query(vocab)
			what := func() string { return fmt.Sprintf("%shits search %q", m.dump(), q) }
			v.guard(what, func() {
				got := HitsSearch(vcopy(q), in)
				for i := 1; i < len(got); i++ {
					a, b := got[i-1], got[i]
					if a.Hits < b.Hits || a.Hits == b.Hits && a.Document.Name > b.Document.Name {
						v.fail("%s: result %d (%d, %q) comes before (%d, %q)", what(), i-1, a.Hits, a.Document.Name, b.Hits, b.Document.Name)
					}
				}
			})
		}
		// the ordering itself, with different hit counts
		rs := make(SearchResults, v.size(80))
		for i := range rs {
			rs[i] = SearchResult{Document: Doc{Name: v.word(9), Content: fmt.Sprint(i)}, Hits: v.r.Intn(4)}
		}
		before := vcopy(rs)
		v.guard(func() string { return fmt.Sprintf("sorting %v", before) }, func() {
			if rs.Len() != len(before) {
				v.fail("Len of %v is %d", before, rs.Len())
			}
			for k := 0; k < 20 && len(rs) > 0; k++ {
				i, j := v.r.Intn(len(rs)), v.r.Intn(len(rs))
				a, b := rs[i], rs[j]
				if got, want := rs.Less(i, j), a.Hits > b.Hits || a.Hits == b.Hits && a.Document.Name < b.Document.Name; got != want {
					v.fail("Less(%v, %v) is %v", a, b, got)
				}
			}
			sort.Sort(rs)
			want := vcopy(before)
			sort.SliceStable(want, func(i, j int) bool {
				return want[i].Hits > want[j].Hits || want[i].Hits == want[j].Hits && want[i].Document.Name < want[j].Document.Name
			})
			for i := range want {
				if want[i].Hits != rs[i].Hits || want[i].Document.Name != rs[i].Document.Name {
					v.fail("sorting %v: got %v", before, rs)
				}
			}
		})
	}
}
