package visigoth

import (
	"fmt"
	"testing"
)

func TestReplayC07(t *testing.T) {
	v := newVrep(t)
	// any index: arbitrary listings
	for v.more() {
		in, m := NewMemoryIndex("i", vtok{}), newVidx()
		vocab := v.vocab()
		v.fill(in, m, v.docs(), vocab)
		for k := 0; k < 20; k++ {
			q := v.query(vocab)
			what := func() string { return fmt.Sprintf("%slinear search %q", m.dump(), q) }
			v.guard(what, func() {
				given := vcopy(q)
				got := LinearSearch(given, in)
				want := m.results(m.match(q), len(q))
				if !veq(got, want) {
					v.fail("%s: got %v want %v", what(), got, want)
				}
			})
		}
	}
}
