package visigoth

import "testing"

func TestReplayC24(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		n, c, s := v.str(40), v.str(200), v.str(200)
		if v.r.Intn(4) == 0 {
			n = ""
		}
		if v.r.Intn(6) == 0 {
			s = c
		}
		if v.r.Intn(6) == 0 {
			c = n
		}
		m := MimeType(v.r.Intn(256))
		is := func(what string, r DocRequest, c, s string, m MimeType) {
			if r.ID() != n || r.Raw() != c || r.Statement() != s || r.Mime() != m || r.Name != n || r.Content != c || r.MimeType != m {
				v.fail("%s with %q, %q, %q, %d: holds %q, %q, %q, %d", what, n, c, s, m, r.ID(), r.Raw(), r.Statement(), r.Mime())
			}
		}
		v.guard(func() string { return n + "/" + c + "/" + s }, func() {
			is("NewDocRequest", NewDocRequest(n, c), c, c, MimeText)
			is("NewDocRequestWith", NewDocRequestWith(n, c, s), c, s, MimeText)
			is("NewDocRequestWithMime", NewDocRequestWithMime(n, c, m), c, c, m)
			d := NewDoc(n, c)
			if d.ID() != n || d.Raw() != c || d.Name != n || d.Content != c {
				v.fail("NewDoc(%q, %q) is %q", n, c, d)
			}
			h := d.Hash()
			NewDoc(c, n).Hash()
			if NewDoc(n, s).Hash() != h || d.Hash() != h || (Doc{Name: n}).Hash() != h {
				v.fail("the hash of NewDoc(%q, %q) does not depend on the ID alone: %v, %v for content %q", n, c, h, NewDoc(n, s).Hash(), s)
			}
		})
	}
}
