package visigoth

import (
	"testing"
	"time"
)

func TestReplayC19(t *testing.T) {
	v := newVrep(t)
	end := v.end
	// one at a time: locks left behind, workers not awaited
	v.end = time.Now().Add(time.Until(end) / 4)
	v.repos([]int{5, 8, 6, 5, 4, 6, 2, 3, 2, 1})
	v.end = end
	for v.more() {
		for i, p := 0, v.prog([]int{6, 6, 5, 4, 4, 6, 3, 3, 3, 3, 1}, 12); i < 4; i++ {
			v.exec(p, false, func(string) Index { vyield(); return &vcix{} })
		}
	}
}
