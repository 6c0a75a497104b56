package visigoth

import (
	"testing"
)

func vvowel(r rune) bool {
	switch r {
	case 'a', 'e', 'i', 'o', 'u', 'á', 'é', 'í', 'ó', 'ú', 'ü':
		return true
	}
	return false
}

// vregion is the part of s after the first non-vowel that follows a vowel.
func vregion(s string) string {
	seen := false
	end := -1
	for i, r := range s {
		if end >= 0 {
			return s[i:]
		}
		if seen && !vvowel(r) {
			end = i
		}
		seen = seen || vvowel(r)
	}
	return ""
}

func vrv(s string) string {
	var pos []int
	var rs []rune
	for i, r := range s {
		pos = append(pos, i)
		rs = append(rs, r)
	}
	from := func(k int) string {
		if k >= len(pos) {
			return ""
		}
		return s[pos[k]:]
	}
	if len(rs) < 3 {
		return ""
	}
	next := func(v bool) string {
		for k := 2; k < len(rs); k++ {
			if vvowel(rs[k]) == v {
				return from(k + 1)
			}
		}
		return ""
	}
	switch {
	case !vvowel(rs[1]):
		return next(true)
	case vvowel(rs[0]):
		return next(false)
	}
	return from(3)
}

func TestReplayC22(t *testing.T) {
	v := newVrep(t)
	try := func(w string) {
		v.guard(func() string { return "R1R2RV of " + w }, func() {
			b := []byte(w)
			r1, r2, rv := R1R2RV(b)
			w1 := vregion(w)
			if string(r1) != w1 || string(r2) != vregion(w1) || string(rv) != vrv(w) || string(b) != w {
				v.fail("R1R2RV(%q): got %q %q %q want %q %q %q", w, r1, r2, rv, w1, vregion(w1), vrv(w))
			}
		})
	}
	alpha := []string{"a", "b", "é", "ñ", "\xff"}
	var rec func(w string, n int)
	rec = func(w string, n int) {
		try(w)
		if n == 0 {
			return
		}
		for _, a := range alpha {
			rec(w+a, n-1)
		}
	}
	rec("", 7)
	all := []string{"a", "e", "i", "o", "u", "á", "é", "í", "ó", "ú", "ü", "à", "y", "ñ", "b", "c", "r", "A", "E", "Ü", "ö", "ï", "日", "\xc3", "\xff", "1", "-"}
	for v.more() {
		w := ""
		for n := v.size(30); n > 0; n-- {
			w += all[v.r.Intn(len(all))]
		}
		try(w)
	}
}
