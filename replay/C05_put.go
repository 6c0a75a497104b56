package visigoth

import "testing"

func TestReplayC05(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		in, m := NewMemoryIndex("i", vtok{}), newVidx()
		// a neighbour with the same content must not be disturbed
		in2, m2 := NewMemoryIndex("j", vtok{}), newVidx()
		if d := m.diff(in); d != "" {
			v.fail("a new index: %s", d)
		}
		vocab := v.vocab()
		for n := v.docs(); n > 0; n-- {
			id, c, s := v.doc(vocab)
			v.guard(func() string { return m.dump() + "then putting " + s }, func() {
				in.Put(NewDocRequestWith(id, c, s))
			})
			m.put(id, c, s)
			if v.r.Intn(4) == 0 {
				in2.Put(NewDocRequestWith(id, c, s))
				m2.put(id, c, s)
			}
			if len(m.docs) < 40 || v.r.Intn(40) == 0 {
				if d := m.diff(in); d != "" {
					v.fail("after %s: %s", m.dump(), d)
				}
			}
			if d := m2.diff(in2); d != "" && len(m2.docs) < 40 {
				v.fail("after %s on one and %s on the other index: the other has %s", m.dump(), m2.dump(), d)
			}
		}
		if d := m.diff(in); d != "" {
			v.fail("after %s: %s", m.dump(), d)
		}
	}
}
