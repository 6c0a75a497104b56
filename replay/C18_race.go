package visigoth

import "testing"

func TestReplayC18(t *testing.T) {
	v := newVrep(t)
	mem := NewMemoryIndexBuilder(vtok{})
	for v.more() && !t.Failed() {
		b := mem
		if v.r.Intn(2) == 0 {
			b = func(string) Index { return &vcix{} }
		}
		vengine = []Engine{vall, vall, vnone, vsome}[v.r.Intn(4)]
		for i, p := 0, v.prog([]int{8, 6, 5, 4, 3, 6, 3, 5, 3, 3, 1}, 6); i < 4; i++ {
			v.exec(p, false, b)
		}
	}
}
