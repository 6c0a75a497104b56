package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Verdict of one proof attempt.
type Verdict int

const (
	Proved Verdict = iota
	Unknown
	Refuted // the solver produced a model of the negation
	Limited // the resource limit came first
)

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// Pool is a set of z3 processes.
type Pool struct {
	slots    chan *proc
	cache    sync.Map // hash -> Verdict
	Queries  int64
	Hits     int64
	NanoZ3   int64
	bin      string
	Deadline time.Time
}

func NewPool(n int) *Pool {
	p := &Pool{slots: make(chan *proc, n)}
	p.bin = "z3-new"
	if _, err := exec.LookPath(p.bin); err != nil {
		p.bin = "z3"
	}
	for i := 0; i < n; i++ {
		p.slots <- nil
	}
	return p
}

func startProc(bin string) (*proc, error) {
	c := exec.Command(bin, "-in", "-smt2")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = c.Stdout
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{c, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

const z3opts = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.case_split 3)
(set-option :smt.delay_units true)
(set-option :smt.qi.eager_threshold 100)
(set-option :type_check true)
`

type Query struct {
	preamble string
	assume   []*Term
	goals    []*Term
	rlimit   int64
	opts     string
}

// Prove tries to prove each goal from the assumptions.
func (p *Pool) Prove(q Query) []Verdict {
	res := make([]Verdict, len(q.goals))
	var todo []int
	for i, g := range q.goals {
		if g == True {
			res[i] = Proved
			continue
		}
		todo = append(todo, i)
	}
	if len(todo) == 0 {
		return res
	}
	for _, a := range q.assume {
		if a == False {
			return res
		}
	}
	if q.opts == "" {
		q.opts = z3opts
	}
	if q.rlimit == 0 {
		q.rlimit = 20_000_000
	}
	// split over workers
	n := cap(p.slots)
	per := (len(todo) + n - 1) / n
	if per > 3 {
		per = 3
	}
	var wg sync.WaitGroup
	for s := 0; s < len(todo); s += per {
		e := s + per
		if e > len(todo) {
			e = len(todo)
		}
		part := todo[s:e]
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.chunk(q, part, res)
		}()
	}
	wg.Wait()
	return res
}

func (p *Pool) chunk(q Query, idx []int, res []Verdict) {
	ts := append([]*Term{}, q.assume...)
	for _, i := range idx {
		ts = append(ts, q.goals[i])
	}
	decls, txt := script(ts)
	var head strings.Builder
	head.WriteString(q.preamble)
	head.WriteString(decls)
	for _, a := range txt[:len(q.assume)] {
		fmt.Fprintf(&head, "(assert %s)\n", a)
	}
	hs := head.String()
	base := sha256.Sum256([]byte(q.opts + hs + fmt.Sprint(q.rlimit)))
	var todo []int
	keys := map[int]string{}
	for k, i := range idx {
		h := sha256.Sum256(append(base[:], txt[len(q.assume)+k]...))
		keys[i] = string(h[:])
		if v, ok := p.cache.Load(keys[i]); ok {
			res[i] = v.(Verdict)
			atomic.AddInt64(&p.Hits, 1)
			continue
		}
		todo = append(todo, k)
	}
	if len(todo) == 0 {
		return
	}
	pr := <-p.slots
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&p.NanoZ3, int64(time.Since(t0)))
		p.slots <- pr
	}()
	loaded := false
	for _, k := range todo {
		i := idx[k]
		if !p.Deadline.IsZero() && time.Now().After(p.Deadline) {
			res[i] = Unknown
			continue
		}
		if pr == nil {
			var err error
			pr, err = startProc(p.bin)
			if err != nil {
				fmt.Fprintln(os.Stderr, "cannot start solver:", err)
				os.Exit(3)
			}
			loaded = false
		}
		var b strings.Builder
		if !loaded {
			b.WriteString("(reset)\n")
			b.WriteString(q.opts)
			fmt.Fprintf(&b, "(set-option :rlimit %d)\n", q.rlimit)
			b.WriteString(hs)
			loaded = true
		}
		fmt.Fprintf(&b, "(push)\n(assert (not %s))\n(check-sat)\n(get-info :reason-unknown)\n(pop)\n(echo \"@done\")\n", txt[len(q.assume)+k])
		atomic.AddInt64(&p.Queries, 1)
		v, ok := p.ask(pr, b.String())
		if !ok {
			pr.kill()
			pr = nil
			v = Unknown
		}
		if v != Proved {
			loaded = false // what a failed search leaves behind slows the next one down
		}
		res[i] = v
		p.cache.Store(keys[i], v)
		if dumpDir != "" {
			dumpQuery(q, hs, txt[len(q.assume)+k], v)
		}
	}
}

var dumpDir = os.Getenv("GVC_DUMP")
var dumpN int64

func dumpQuery(q Query, hs, goal string, v Verdict) {
	n := atomic.AddInt64(&dumpN, 1)
	os.MkdirAll(dumpDir, 0o755)
	os.WriteFile(fmt.Sprintf("%s/q%05d_%d.smt2", dumpDir, n, v), []byte(q.opts+hs+"(assert (not "+goal+"))\n(check-sat)\n"), 0o644)
}

var hardTimeout = 30 * time.Second

func (p *Pool) ask(pr *proc, s string) (Verdict, bool) {
	type ans struct {
		v  Verdict
		ok bool
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := io.WriteString(pr.in, s); err != nil {
			ch <- ans{Unknown, false}
			return
		}
		v, bad := Unknown, false
		for {
			line, err := pr.out.ReadString('\n')
			if err != nil {
				ch <- ans{Unknown, false}
				return
			}
			line = strings.TrimSpace(line)
			switch {
			case line == "unsat":
				v = Proved
			case line == "sat":
				v = Refuted
			case line == "unknown":
			case strings.HasPrefix(line, "(:reason-unknown"):
				if v == Unknown && (strings.Contains(line, "resource") || strings.Contains(line, "cancel") || strings.Contains(line, "timeout")) {
					v = Limited
				}
			case strings.Trim(line, `"`) == "@done":
				if bad {
					// an answer to a script that was not understood means nothing
					ch <- ans{Unknown, false}
					return
				}
				ch <- ans{v, true}
				return
			case line != "":
				if solverErr(line, s) {
					bad = true
				}
			}
		}
	}()
	select {
	case a := <-ch:
		return a.v, a.ok
	case <-time.After(hardTimeout):
		return Unknown, false
	}
}

var solverErrs int64

func solverErr(line, s string) bool {
	if strings.Contains(line, "canceled") || strings.Contains(line, "resource") {
		return false
	}
	if atomic.AddInt64(&solverErrs, 1) <= 5 {
		fmt.Fprintln(os.Stderr, "solver:", line)
		if os.Getenv("GVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, s)
		}
	}
	return true
}

func (p *Pool) Close() {
	for i := 0; i < cap(p.slots); i++ {
		if pr := <-p.slots; pr != nil {
			pr.kill()
		}
	}
}

// cvc5 tries one goal with the second solver.
func (p *Pool) cvc5(q Query) bool {
	if _, err := exec.LookPath("cvc5"); err != nil {
		return false
	}
	ts := append(append([]*Term{}, q.assume...), q.goals[0])
	decls, txt := script(ts)
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(q.preamble)
	b.WriteString(decls)
	for _, a := range txt[:len(q.assume)] {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", txt[len(q.assume)])
	t0 := time.Now()
	c := exec.Command("cvc5", "--lang=smt2", "--tlimit=10000", "--full-saturate-quant", "-")
	c.Stdin = strings.NewReader(b.String())
	out, _ := c.CombinedOutput()
	atomic.AddInt64(&p.NanoZ3, int64(time.Since(t0)))
	atomic.AddInt64(&p.Queries, 1)
	return strings.TrimSpace(string(out)) == "unsat"
}

// text is the query as a file for a solver run by hand.
func (q Query) text() string {
	ts := append(append([]*Term{}, q.assume...), q.goals...)
	decls, txt := script(ts)
	var b strings.Builder
	b.WriteString(z3opts + q.preamble + decls)
	for _, a := range txt[:len(q.assume)] {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	for _, g := range txt[len(q.assume):] {
		fmt.Fprintf(&b, "(assert (not %s))\n", g)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}
