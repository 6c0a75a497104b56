package visigoth

import (
	"fmt"
	"strings"
	"testing"
)

func TestReplayC06(t *testing.T) {
	v := newVrep(t)
	engines := map[string]Engine{"linear": LinearSearch, "hits": HitsSearch, "zero": NoopZeroSearch, "all": NoopAllSearch}
	for v.more() {
		in, m := NewMemoryIndex("i", vtok{}), newVidx()
		vocab := v.vocab()
		v.fill(in, m, v.docs(), vocab)
		for k := 0; k < 30; k++ {
			q := v.query(vocab)
			var what string
			v.guard(func() string { return m.dump() + what }, func() {
				switch v.r.Intn(6) {
				case 0:
					key := v.word(vocab + 1)
					what = fmt.Sprintf("Indexed(%q) and overwriting the result", key)
					l := in.Indexed(key)
					if !veq(l, m.inv[key]) {
						v.fail("%s%s: got %v want %v", m.dump(), what, l, m.inv[key])
					}
					for i := range l {
						l[i] = -1 - i
					}
					if cap(l) > len(l) {
						_ = append(l, -99)
					}
				case 1:
					if len(m.docs) > 0 {
						i := v.r.Intn(len(m.docs))
						what = fmt.Sprintf("Document(%d)", i)
						if d := in.Document(i); d != m.docs[i] {
							v.fail("%s%s: got %v", m.dump(), what, d)
						}
					}
				case 2:
					what = "Len"
					if in.Len() != len(m.docs) {
						v.fail("%sLen is %d", m.dump(), in.Len())
					}
				case 3:
					what = "String"
					_ = in.String()
				default:
					for n, e := range engines {
						what = fmt.Sprintf("search %q with %s and overwriting the results", q, n)
						rs := in.Search(strings.Join(q, " "), e)
						for i := range rs {
							rs[i] = SearchResult{Document: Doc{Name: "overwritten"}, Hits: -1}
						}
						given := vcopy(q)
						e(given, in)
						if !veq(given, q) {
							v.fail("%s%s: the tokens became %q", m.dump(), what, given)
						}
						if d := m.diff(in); d != "" {
							v.fail("after %s%s: %s", m.dump(), what, d)
						}
					}
				}
			})
			if d := m.diff(in); d != "" {
				v.fail("after %s%s: %s", m.dump(), what, d)
			}
		}
		// what a lookup returned stays as it was when the index grows
		key := v.word(vocab)
		l := in.Indexed(key)
		l0 := vcopy(l)
		v.fill(in, m, 3, vocab)
		if !veq(l, l0) {
			v.fail("%s: the list returned for %q changed from %v to %v", m.dump(), key, l0, l)
		}
		if len(l) > 0 && cap(l) > len(l) {
			l = append(l, -7)
			if d := m.diff(in); d != "" {
				v.fail("after %s and appending to the list returned for %q: %s", m.dump(), key, d)
			}
		}
	}
}
