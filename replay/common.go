package visigoth

// Search for failing inputs, run by a check after an obligation failed.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vrep struct {
	t    *testing.T
	r    *rand.Rand
	end  time.Time
	strs []string // literals of the code under test
	ints []int

	watch sync.Once
	cur   atomic.Pointer[vcall]
}

func newVrep(t *testing.T) *vrep {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 20 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 100 * time.Second
	}
	v := &vrep{t: t, r: rand.New(rand.NewSource(seed)), end: time.Now().Add(d)}
	v.literals()
	return v
}

// literals collects constants of the code, which its special cases hinge on.
func (v *vrep) literals() {
	files, _ := filepath.Glob("*.go")
	seen := map[string]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok || seen[l.Value] || len(seen) > 2000 {
				return true
			}
			seen[l.Value] = true
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 24 && len(v.strs) < 60 && !strings.Contains(s, "/") {
					v.strs = append(v.strs, s)
				}
			case token.INT:
				if i, err := strconv.ParseInt(l.Value, 0, 32); err == nil && i >= 0 && i <= 5000 {
					v.ints = append(v.ints, int(i))
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					v.strs = append(v.strs, s)
				}
			}
			return true
		})
	}
}

func (v *vrep) more() bool { return time.Now().Before(v.end) }

func (v *vrep) fail(f string, a ...any) {
	v.t.Helper()
	s := fmt.Sprintf(f, a...)
	if len(s) > 6000 {
		s = s[:6000] + " …"
	}
	v.t.Fatalf("FAILING-INPUT %s", s)
}

// guard turns a panic of the code under test into a failing input.
func (v *vrep) guard(what func() string, f func()) {
	v.t.Helper()
	v.watch.Do(func() { go v.watchdog() })
	v.cur.Store(&vcall{time.Now(), what})
	defer func() {
		v.cur.Store(nil)
		if r := recover(); r != nil {
			v.fail("%s: panic: %v", what(), r)
		}
	}()
	f()
}

type vcall struct {
	since time.Time
	what  func() string
}

// watchdog reports a guarded call that does not return, or only fills the memory.
func (v *vrep) watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		c := v.cur.Load()
		if c == nil {
			continue
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if d := time.Since(c.since); d > 30*time.Second || d > time.Second && m.HeapAlloc > 4<<30 {
			s := c.what()
			if len(s) > 6000 {
				s = s[:6000] + " …"
			}
			fmt.Printf("FAILING-INPUT %s: does not return\n", s)
			os.Exit(1)
		}
	}
}

// size picks a length: mostly small, sometimes at a threshold of the code.
func (v *vrep) size(max int) int {
	n := 0
	switch v.r.Intn(10) {
	case 0:
		n = v.r.Intn(2)
	case 1, 2, 3, 4:
		n = v.r.Intn(6)
	case 5, 6:
		n = v.r.Intn(20)
	case 7:
		if len(v.ints) > 0 {
			n = v.ints[v.r.Intn(len(v.ints))] + v.r.Intn(3) - 1
		}
	case 8:
		n = (1 << v.r.Intn(11)) + v.r.Intn(3) - 1
	default:
		n = v.r.Intn(max + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

var valpha = []string{"a", "b", "c", "x", "A", "B", "ñ", "Ñ", "é", "ü", "1", "0", " ", "-", "_", ".", "日", "İ", "ß", "Ⅷ", "\u0301", "\xff", "\xc3", "😀", "\n", "'", "ª", "½", "٣"}

func (v *vrep) str(max int) string {
	if len(v.strs) > 0 && v.r.Intn(8) == 0 {
		return v.strs[v.r.Intn(len(v.strs))]
	}
	n := v.size(max)
	var b strings.Builder
	k := 2 + v.r.Intn(len(valpha)-1)
	for i := 0; i < n; i++ {
		b.WriteString(valpha[v.r.Intn(k)])
	}
	return b.String()
}

// word is one of k short words.
func (v *vrep) word(k int) string {
	i := v.r.Intn(k)
	if i < len(v.strs) && v.r.Intn(12) == 0 {
		return v.strs[v.r.Intn(len(v.strs))]
	}
	return fmt.Sprintf("w%d", i)
}

func (v *vrep) words(n, k int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = v.word(k)
	}
	return out
}

func vcopy[T any](s []T) []T { return append([]T{}, s...) }

func veq[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// vtok splits at spaces.
type vtok struct{}

func (vtok) Tokenize(s string) []string { return strings.Fields(s) }
