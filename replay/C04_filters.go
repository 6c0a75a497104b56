package visigoth

import (
	"fmt"
	"strings"
	"testing"

	vsnow "github.com/kljensen/snowball/spanish"
)

func TestReplayC04(t *testing.T) {
	v := newVrep(t)
	ws := []string{"programación", "JAVA", "corriendo", "niños", "de", "DE", "El", "la", "gatos", "ÁRBOL", "rápidamente", "x", "", "123", "İstanbul", "ΑΣ", "Straße", "casas", "CASAS", "habían", "yendo"}
	for w := range SpanishStopWords {
		ws = append(ws, w)
	}
	type res struct{ got, want []string }
	var prev []res
	for v.more() {
		ts := make([]string, v.size(1200))
		for i := range ts {
			switch v.r.Intn(4) {
			case 0:
				ts[i] = v.str(8)
			case 1:
				if i > 0 {
					ts[i] = ts[i-1]
					break
				}
				fallthrough
			default:
				ts[i] = ws[v.r.Intn(len(ws))]
			}
		}
		rm := v.r.Intn(2) == 0
		for k, f := range []Filter{NewLowerCaseTokenizer(), NewSpanishStemmer(rm)} {
			fn := strings.ToLower
			if k == 1 {
				fn = func(s string) string { return vsnow.Stem(s, rm) }
			}
			var want []string
			what := func() string { return fmt.Sprintf("%T (stop words %v) on %q", f, rm, ts) }
			func() {
				defer func() {
					if recover() != nil {
						want = nil // the stemming library fails on this token
					}
				}()
				for _, x := range ts {
					want = append(want, fn(x))
				}
			}()
			if len(want) != len(ts) {
				continue
			}
			in := vcopy(ts)
			v.guard(what, func() {
				got := f.Filter(in)
				if !veq(got, want) {
					v.fail("%s: got %q want %q", what(), got, want)
				}
				if !veq(in, ts) {
					v.fail("%s: the caller's tokens became %q", what(), in)
				}
				for _, p := range prev {
					if !veq(p.got, p.want) {
						v.fail("%s: changed an earlier result from %q to %q", what(), p.want, p.got)
					}
				}
				prev = append(prev, res{got, want})
				if len(prev) > 4 {
					prev = prev[1:]
				}
			})
		}
	}
}
