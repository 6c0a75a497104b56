package visigoth

import (
	"fmt"
	"strings"
	"testing"
)

type vstage struct {
	log  *[]string
	name string
	mode int
}

func (s vstage) Filter(ts []string) []string {
	*s.log = append(*s.log, s.name+"("+strings.Join(ts, "|")+")")
	switch s.mode {
	case 0:
		return nil
	case 1:
		return []string{}
	case 2:
		if len(ts) > 0 {
			return ts[1:]
		}
		return ts
	case 3:
		return ts
	}
	out := make([]string, 0, len(ts)+1)
	for _, t := range ts {
		out = append(out, t+s.name)
	}
	return append(out, s.name)
}

type vsrc struct {
	log *[]string
	out []string
}

func (s vsrc) Tokenize(t string) []string {
	*s.log = append(*s.log, "tok("+t+")")
	return s.out
}

func TestReplayC01(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		var log []string
		n := v.size(40)
		var fs []Filter
		var modes []int
		for i := 0; i < n; i++ {
			m := 4
			if v.r.Intn(4) == 0 {
				m = v.r.Intn(4)
			}
			modes = append(modes, m)
			fs = append(fs, vstage{&log, fmt.Sprint(i), m})
		}
		if n > 1 && v.r.Intn(3) == 0 { // the same stage twice
			fs[v.r.Intn(n)] = fs[0]
		}
		var src []string
		if v.r.Intn(5) > 0 {
			src = v.words(v.size(20), 3)
		}
		text := v.str(20)
		what := func() string {
			return fmt.Sprintf("pipeline of %d filters (modes %v), tokens %q, text %q", n, modes, src, text)
		}
		v.guard(what, func() {
			given := vcopy(fs)
			p := NewTokenizationPipeline(vsrc{&log, src}, given...)
			for round := 0; round < 3; round++ {
				log = nil
				want := vsrc{&log, src}.Tokenize(text)
				for _, f := range fs {
					want = f.Filter(want)
				}
				want = vcopy(want)
				wlog := log
				log = nil
				got := p.Tokenize(text)
				if !veq(got, want) || !veq(log, wlog) {
					v.fail("%s, call %d: got %q by %q, want %q by %q", what(), round+1, got, log, want, wlog)
				}
			}
		})
	}
}
