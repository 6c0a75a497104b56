package visigoth

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sonirico/vago/slices"
)

// vyieldRate: how often a statement of the code under test pauses, in 1/1000.
// Only written while no operation runs.
var vyieldRate uint32

// vyield is inserted before every statement of the code under test, in a copy
// made for this search, so that more interleavings occur. It synchronises
// nothing.
func vyield() {
	if vyieldRate == 0 {
		return
	}
	switch k := rand.Uint32N(1000); {
	case k < vyieldRate/4:
		time.Sleep(time.Duration(rand.Uint32N(60)) * time.Microsecond)
	case k < vyieldRate:
		runtime.Gosched()
	}
}

type vop struct {
	kind int // put alias unalias rename drop search list aliases has hasalias string
	a, b string
}

func (o vop) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("put(%s, %s)", o.a, o.b)
	case 1:
		return fmt.Sprintf("alias(%s, %s)", o.a, o.b)
	case 2:
		return fmt.Sprintf("unalias(%s, %s)", o.a, o.b)
	case 3:
		return fmt.Sprintf("rename(%s, %s)", o.a, o.b)
	case 4:
		return fmt.Sprintf("drop(%s)", o.a)
	case 5:
		return fmt.Sprintf("search(%s)", o.a)
	case 6:
		return "list()"
	case 7:
		return "aliases()"
	case 8:
		return fmt.Sprintf("has(%s)", o.a)
	case 9:
		return fmt.Sprintf("hasalias(%s)", o.a)
	}
	return "string()"
}

type vprog struct {
	setup   []vop
	threads [][]vop
	tail    []vop
}

func (p vprog) String() string {
	s := fmt.Sprintf("first %v, then concurrently", p.setup)
	for _, t := range p.threads {
		s += fmt.Sprintf(" %v", t)
	}
	return s
}

func (v *vrep) vop(w []int, names []string) vop {
	r := v.r
	total := 0
	for _, k := range w {
		total += k
	}
	p := r.Intn(total)
	op := 0
	for p >= w[op] {
		p -= w[op]
		op++
	}
	o := vop{kind: op, a: names[r.Intn(len(names))], b: names[r.Intn(len(names))]}
	if op == 0 {
		o.b = fmt.Sprintf("d%d", r.Intn(1000))
	}
	if op == 2 && r.Intn(4) == 0 {
		o.b = ""
	}
	return o
}

// vprog: few names, few threads; sometimes the same operation in all threads.
func (v *vrep) prog(w []int, maxOps int) vprog {
	r := v.r
	names := []string{"x", "y", "z", "u"}[:1+r.Intn(4)]
	var p vprog
	for _, n := range names {
		if r.Intn(3) > 0 {
			p.setup = append(p.setup, vop{kind: 0, a: n, b: "first"})
		}
	}
	for i := r.Intn(5); i > 0; i-- {
		p.setup = append(p.setup, v.vop([]int{2, 5, 1, 1, 1}, append(names, "al")))
	}
	if r.Intn(3) > 0 {
		names = append(names, "al")
	}
	t := 2 + r.Intn(3)
	for i := 0; i < t; i++ {
		var ops []vop
		for j := 1 + r.Intn(maxOps); j > 0; j-- {
			ops = append(ops, v.vop(w, names))
		}
		p.threads = append(p.threads, ops)
	}
	if r.Intn(2) == 0 { // the same operation everywhere
		o := v.vop(w, names)
		for i := range p.threads {
			k := r.Intn(len(p.threads[i]))
			p.threads[i][k] = o
			if o.kind == 0 {
				p.threads[i][k].b = fmt.Sprintf("d%d", 1000+i)
			}
		}
	}
	for _, n := range append(names, "al") {
		p.tail = append(p.tail, vop{kind: 5, a: n}, vop{kind: 9, a: n})
	}
	p.tail = append(p.tail, vop{kind: 6}, vop{kind: 7})
	return p
}

// vcix is an index that pauses; it has no lock of its own.
type vcix struct{ docs []string }

func (x *vcix) Put(d DocRequest) Index {
	n := len(x.docs)
	vyield()
	x.docs = append(x.docs[:n:n], d.Name)
	vyield()
	return x
}

func (x *vcix) Search(terms string, engine Engine) slices.Slice[SearchResult] {
	vyield()
	return engine([]string{terms}, x)
}
func (x *vcix) Len() int             { return len(x.docs) }
func (x *vcix) Indexed(string) []int { return nil }
func (x *vcix) Document(i int) Doc   { return Doc{Name: x.docs[i]} }
func (x *vcix) String() string       { return fmt.Sprint(len(x.docs)) }

func vall(tokens []string, ix Indexer) slices.Slice[SearchResult] {
	var out []SearchResult
	for i, n := 0, ix.Len(); i < n; i++ {
		out = append(out, SearchResult{Document: ix.Document(i)})
		vyield()
	}
	return out
}

// vengine is the engine searches use. Only written while no operation runs.
var vengine Engine = vall

func vnone(tokens []string, ix Indexer) slices.Slice[SearchResult] {
	vyield()
	return nil
}

func vsome(tokens []string, ix Indexer) slices.Slice[SearchResult] {
	var out []SearchResult
	for i, n := 0, ix.Len(); i < n; i++ {
		if d := ix.Document(i); len(d.Name) == 4 {
			out = append(out, SearchResult{Document: d, Hits: 1})
		}
	}
	return out
}

// do runs one operation and gives what it reported; the caller's copies are
// overwritten afterwards.
func (o vop) do(h *IndexRepo) string {
	switch o.kind {
	case 0:
		h.Put(o.a, NewDocRequest(o.b, o.b))
		return ""
	case 1:
		return fmt.Sprint(h.Alias(o.a, o.b))
	case 2:
		return fmt.Sprint(h.UnAlias(o.a, o.b))
	case 3:
		return fmt.Sprint(h.Rename(o.a, o.b))
	case 4:
		return fmt.Sprint(h.Drop(o.a))
	case 5:
		st, err := h.Search(o.a, "t", vengine)
		if err != nil {
			return "error"
		}
		var out []string
		for st.Next() {
			out = append(out, st.Data().Document.Name)
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	case 6:
		l := h.List()
		out := vcopy(l)
		for i := range l {
			l[i] = "overwritten"
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	case 7:
		var out []string
		for _, r := range h.ListAliases().Aliases {
			l := vcopy(r.Indices)
			sort.Strings(l)
			out = append(out, r.Alias+"→"+strings.Join(l, "+"))
			for i := range r.Indices {
				r.Indices[i] = "overwritten"
			}
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	case 8:
		return fmt.Sprint(h.Has(o.a))
	case 9:
		return fmt.Sprint(h.HasAlias(o.a))
	}
	_ = h.String()
	return ""
}

type vev struct {
	op       vop
	out      string
	inv, ret int64
}

// vexec runs a program. With stamps, the order of calls and returns is kept
// (which orders them in memory as well, so that races may go unnoticed).
func (v *vrep) exec(p vprog, stamps bool, build Builder) [][]vev {
	h := NewIndexRepo(build)
	var clock atomic.Int64
	var alive atomic.Int64
	finished := make(chan struct{})
	where := make([]atomic.Int64, len(p.threads))
	go func() {
		last, n := int64(-1), 0
		for {
			select {
			case <-finished:
				return
			case <-time.After(time.Second):
			}
			sum := alive.Load()
			for i := range where {
				sum += where[i].Load()
			}
			if sum != last {
				last, n = sum, 0
			} else if n++; n > 12 {
				fmt.Printf("FAILING-INPUT %s: operations never return\n", p)
				os.Exit(1)
			}
		}
	}()
	defer close(finished)
	one := func(o vop) vev {
		e := vev{op: o}
		if stamps {
			e.inv = clock.Add(1)
		}
		e.out = o.do(h)
		if stamps {
			e.ret = clock.Add(1)
		}
		return e
	}
	out := make([][]vev, len(p.threads)+2)
	vyieldRate = 0
	v.guard(p.String, func() {
		for _, o := range p.setup {
			out[0] = append(out[0], one(o))
			alive.Add(1)
		}
	})
	vyieldRate = uint32([]int{0, 20, 100, 300, 700}[v.r.Intn(5)])
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, t := range p.threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("FAILING-INPUT %s: panic: %v\n", p, r)
					os.Exit(1)
				}
			}()
			<-start
			for j, o := range t {
				out[i+1] = append(out[i+1], one(o))
				if stamps || j == len(t)-1 {
					where[i].Add(1)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	vyieldRate = 0
	v.guard(p.String, func() {
		for _, o := range p.tail {
			out[len(out)-1] = append(out[len(out)-1], one(o))
			alive.Add(1)
		}
	})
	return out
}
