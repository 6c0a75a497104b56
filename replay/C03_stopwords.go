package visigoth

import (
	"fmt"
	"strings"
	"testing"
)

func TestReplayC03(t *testing.T) {
	v := newVrep(t)
	var spanish []string
	for w := range SpanishStopWords {
		spanish = append(spanish, w)
	}
	var prevGot, prevWant []string
	var f StopWordsFilter
	var sw StopWords
	for n := 0; v.more(); n++ {
		if n%4 == 0 {
			sw = StopWords{}
			switch v.r.Intn(4) {
			case 0:
				sw = nil
			case 1:
				for _, w := range spanish {
					sw[w] = struct{}{}
				}
			default:
				for i := v.size(30); i > 0; i-- {
					w := v.word(8)
					if v.r.Intn(4) == 0 {
						w = v.str(6)
					}
					sw[w] = struct{}{}
				}
			}
			f = NewStopWordsFilter(sw)
		}
		ts := v.words(v.size(1200), 1+v.r.Intn(10))
		for i := range ts {
			switch v.r.Intn(8) {
			case 0:
				ts[i] = spanish[v.r.Intn(len(spanish))]
			case 1:
				ts[i] = v.str(5)
			case 2:
				ts[i] = strings.ToUpper(ts[i])
			case 3:
				if i > 0 {
					ts[i] = ts[i-1]
				}
			}
		}
		var want []string
		for _, x := range ts {
			if _, ok := sw[x]; !ok {
				want = append(want, x)
			}
		}
		in := vcopy(ts)
		what := func() string { return fmt.Sprintf("stop words %v, tokens %q", sw, ts) }
		v.guard(what, func() {
			got := f.Filter(in)
			if !veq(got, want) {
				v.fail("%s: got %q want %q", what(), got, want)
			}
			if !veq(in, ts) {
				v.fail("%s: the caller's tokens became %q", what(), in)
			}
			if !veq(prevGot, prevWant) {
				v.fail("%s: changed an earlier result from %q to %q", what(), prevWant, prevGot)
			}
			prevGot, prevWant = got, vcopy(want)
		})
	}
}
