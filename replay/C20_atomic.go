package visigoth

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// vstate is a repository as it should be.
type vstate struct {
	ix map[string]int // name to object
	al map[string][]string
	ds [][]string
}

func (s *vstate) clone() *vstate {
	t := &vstate{map[string]int{}, map[string][]string{}, nil}
	for k, i := range s.ix {
		t.ix[k] = i
	}
	for k, l := range s.al {
		t.al[k] = l
	}
	t.ds = append(t.ds, s.ds...)
	return t
}

func (s *vstate) key() string {
	var b []string
	for k, i := range s.ix {
		b = append(b, k+"="+strings.Join(s.ds[i], ","))
	}
	for k, l := range s.al {
		b = append(b, k+">"+strings.Join(l, ","))
	}
	sort.Strings(b)
	return strings.Join(b, ";")
}

func (s *vstate) add(i int, d string) {
	s.ds[i] = append(s.ds[i][:len(s.ds[i]):len(s.ds[i])], d)
	sort.Strings(s.ds[i])
}

// apply does o at once and gives what it should report.
func (s *vstate) apply(o vop) string {
	switch o.kind {
	case 0:
		if i, ok := s.ix[o.a]; ok {
			s.ds[i] = vcopy(s.ds[i])
			s.add(i, o.b)
		} else if l, ok := s.al[o.a]; ok {
			for _, k := range l {
				s.ds[s.ix[k]] = vcopy(s.ds[s.ix[k]])
				s.add(s.ix[k], o.b)
			}
		} else {
			s.ix[o.a] = len(s.ds)
			s.ds = append(s.ds, []string{o.b})
		}
		return ""
	case 1:
		_, ok := s.ix[o.b]
		if !ok || vhas(s.al[o.a], o.b) {
			return "false"
		}
		s.al[o.a] = vwith(s.al[o.a], o.b)
		return "true"
	case 2:
		l, ok := s.al[o.a]
		_, ok2 := s.ix[o.b]
		if !ok || o.b != "" && !ok2 {
			return "false"
		}
		if l = vwithout(l, o.b); o.b == "" || len(l) == 0 {
			delete(s.al, o.a)
		} else {
			s.al[o.a] = l
		}
		return "true"
	case 3:
		i, ok := s.ix[o.a]
		if ok && o.a != o.b {
			delete(s.ix, o.a)
			s.ix[o.b] = i
			for a, l := range s.al {
				if vhas(l, o.a) {
					s.al[a] = vwith(vwithout(l, o.a), o.b)
				}
			}
		}
		return fmt.Sprint(ok)
	case 4:
		_, ok := s.ix[o.a]
		if ok {
			delete(s.ix, o.a)
			for a, l := range s.al {
				if l = vwithout(l, o.a); len(l) == 0 {
					delete(s.al, a)
				} else {
					s.al[a] = l
				}
			}
		}
		return fmt.Sprint(ok)
	case 5:
		if i, ok := s.ix[o.a]; ok {
			return strings.Join(s.ds[i], ",")
		}
		l, ok := s.al[o.a]
		if !ok {
			return "error"
		}
		var out []string
		for _, k := range l {
			out = append(out, s.ds[s.ix[k]]...)
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	case 6:
		var out []string
		for k := range s.ix {
			out = append(out, k)
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	case 7:
		var out []string
		for a, l := range s.al {
			out = append(out, a+"→"+strings.Join(l, "+"))
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	case 8:
		_, ok := s.ix[o.a]
		return fmt.Sprint(ok)
	case 9:
		_, ok := s.al[o.a]
		return fmt.Sprint(ok)
	}
	return ""
}

// vatomic: is there an order of the operations, one at a time and within their
// calls, that explains what they reported?
func vatomic(s *vstate, evs [][]vev, at []int, dead map[string]bool) bool {
	first := int64(1) << 60 // the earliest return of those still to come
	left := false
	for t, l := range evs {
		if at[t] < len(l) {
			left = true
			if r := l[at[t]].ret; r < first {
				first = r
			}
		}
	}
	if !left {
		return true
	}
	k := fmt.Sprint(at) + s.key()
	if dead[k] {
		return false
	}
	for t, l := range evs {
		if at[t] == len(l) || l[at[t]].inv > first {
			continue
		}
		n := s.clone()
		if n.apply(l[at[t]].op) != l[at[t]].out {
			continue
		}
		at[t]++
		if vatomic(n, evs, at, dead) {
			return true
		}
		at[t]--
	}
	dead[k] = true
	return false
}

func TestReplayC20(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		for i, p := 0, v.prog([]int{8, 5, 5, 4, 5, 5, 2, 3, 2, 2, 0}, 3); i < 6; i++ {
			evs := v.exec(p, true, func(string) Index { vyield(); return &vcix{} })
			at := make([]int, len(evs))
			if !vatomic(&vstate{map[string]int{}, map[string][]string{}, nil}, evs, at, map[string]bool{}) {
				var b strings.Builder
				for _, l := range evs {
					for _, e := range l {
						fmt.Fprintf(&b, "\n  %d-%d %s = %q", e.inv, e.ret, e.op, e.out)
					}
				}
				v.fail("%s: no order of these explains what they reported:%s", p, b.String())
			}
		}
	}
}
