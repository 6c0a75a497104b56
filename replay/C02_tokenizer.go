package visigoth

import (
	"fmt"
	"testing"
	"unicode"
)

func vruns(s string, keep func(rune) bool) []string {
	var out []string
	start := -1
	for i, r := range s {
		switch {
		case keep(r) && start < 0:
			start = i
		case !keep(r) && start >= 0:
			out = append(out, s[start:i])
			start = -1
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func TestReplayC02(t *testing.T) {
	v := newVrep(t)
	an := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsNumber(r) }
	for r := rune(0); r <= unicode.MaxRune; r++ {
		s := "a" + string(r) + "b"
		if got, want := NewKeepAlphanumericTokenizer().Tokenize(s), vruns(s, an); !veq(got, want) {
			v.fail("alphanumeric tokenizer on %q (U+%04X): got %q want %q", s, r, got, want)
		}
	}
	rules := []func(rune) bool{
		func(r rune) bool { return r == 'a' }, func(r rune) bool { return r == 'b' }, unicode.IsUpper, unicode.IsDigit,
		func(r rune) bool { return false }, func(r rune) bool { return r > 255 }, func(r rune) bool { return r == ' ' }, func(r rune) bool { return r == 'x' },
		func(r rune) bool { return r == unicode.ReplacementChar },
	}
	for v.more() {
		k := v.size(12)
		var sel []int
		var fns []cleanFunc
		for i := 0; i < k; i++ {
			j := v.r.Intn(len(rules))
			sel = append(sel, j)
			fns = append(fns, cleanFunc(rules[j]))
		}
		keep := func(r rune) bool {
			for _, j := range sel {
				if rules[j](r) {
					return true
				}
			}
			return false
		}
		ct := NewCleanTokenizer(vcopy(fns)...)
		for n := 0; n < 20; n++ {
			s := v.str(60)
			what := func() string { return fmt.Sprintf("tokenizer with rules %v on %q", sel, s) }
			v.guard(what, func() {
				if got, want := ct.Tokenize(s), vruns(s, keep); !veq(got, want) {
					v.fail("%s: got %q want %q", what(), got, want)
				}
				if got, want := NewKeepAlphanumericTokenizer().Tokenize(s), vruns(s, an); !veq(got, want) {
					v.fail("alphanumeric tokenizer on %q: got %q want %q", s, got, want)
				}
			})
		}
	}
}
