package visigoth

import (
	"fmt"
	"testing"
)

func TestReplayC10(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		in, m := NewMemoryIndex("i", vtok{}), newVidx()
		vocab := v.vocab()
		v.fill(in, m, v.docs(), vocab)
		var all []int
		for i := range m.docs {
			all = append(all, i)
		}
		for k := 0; k < 10; k++ {
			q := v.query(vocab)
			if v.r.Intn(4) == 0 {
				q = nil
			}
			what := func() string { return fmt.Sprintf("%squery %q", m.dump(), q) }
			v.guard(what, func() {
				if got := NoopZeroSearch(q, in); len(got) != 0 {
					v.fail("%s: the zero engine found %v", what(), got)
				}
				if got, want := NoopAllSearch(q, in), m.results(all, 0); !veq(got, want) {
					v.fail("%s: the all engine found %v want %v", what(), got, want)
				}
			})
		}
	}
}
