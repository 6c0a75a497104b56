package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// ---- the registered checks: gvc check <property> ----

type checker struct {
	searched, found bool
	out             string
	verif, repo     string
	prop, tier      string
	seed            int64
	t0              time.Time
	deadline        time.Time
	p               *Program
	ct              *Contracts
	pool            *Pool
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func runCheck(prop string, args []string) int {
	c := &checker{verif: envOr("GVC_VERIF", "/verif"), repo: envOr("GVC_REPO", "/repo"), prop: prop, tier: envOr("VERIF_TIER", "quick"), t0: time.Now()}
	for _, a := range args {
		if a == "thorough" || a == "quick" {
			c.tier = a
		}
	}
	c.seed, _ = strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	limit := 330 * time.Second
	if c.tier == "thorough" {
		limit = 1500 * time.Second
	}
	c.deadline = c.t0.Add(limit)
	var err error
	if c.ct, err = LoadContracts(filepath.Join(c.verif, "contracts")); err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	if c.p, err = Load(c.repo); err != nil {
		fmt.Println("cannot load the code:", err)
		return 2
	}
	c.ct.Theory.ct, c.ct.Theory.p = c.ct, c.p
	c.pool = NewPool(8)
	c.pool.Deadline = c.deadline
	defer c.pool.Close()
	return c.run()
}

// wanted are the contracts a property consists of: those with a clause tagged
// with it and, transitively, the contracts their proofs rely on.
func (c *checker) wanted() (own, dep []string) {
	isOwn := map[string]bool{}
	var names []string
	for n, fc := range c.ct.Funcs {
		if fc.Kind == "func" && fc.concerns(c.prop) {
			isOwn[n] = true
			names = append(names, n)
		}
	}
	sort.Strings(names)
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		fc := c.ct.Funcs[n]
		if fc == nil || seen[n] {
			return
		}
		seen[n] = true
		if !isOwn[n] {
			dep = append(dep, n)
		}
		var us []string
		for u := range fc.Use {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			visit(u)
		}
	}
	for _, n := range names {
		visit(n)
	}
	return names, dep
}

func (fc *FuncContract) concerns(p string) bool {
	for _, e := range fc.Ensures {
		if e.Tags[p] {
			return true
		}
	}
	for _, e := range fc.Depends {
		if e.Tags[p] {
			return true
		}
	}
	if fc.Frame[p] || fc.Conc[p] {
		return true
	}
	return p == "C25" && !fc.Assumed
}

type fnReport struct {
	Function  string         `json:"function"`
	Oblig     int            `json:"obligations"`
	Done      int            `json:"discharged"`
	Exits     int            `json:"exits"`
	Kinds     map[string]int `json:"by_kind"`
	Inlined   []string       `json:"inlined,omitempty"`
	Uses      []string       `json:"relies_on,omitempty"`
	Error     string         `json:"error,omitempty"`
	failed    []*Obl
	whole     bool
	seconds   float64
	GenSecs   float64 `json:"seconds"`
	Attempts  int     `json:"attempts"`
	Vacuous   bool    `json:"-"`
	SkipMsg   string  `json:"skipped,omitempty"`
	underCont bool
	hopeless  bool
}

func exported(name string) bool {
	name, _, _ = strings.Cut(name, "#")
	for _, part := range strings.Split(name, ".") {
		if !unicode.IsUpper([]rune(part)[0]) {
			return false
		}
	}
	return true
}

// verify proves one function, with growing budgets.
func (c *checker) verify(name string, all bool, attempt int) *fnReport {
	fc := c.ct.Funcs[name]
	base, _, _ := strings.Cut(name, "#")
	r := &fnReport{Function: name, Kinds: map[string]int{}}
	if c.p.funcs[base] == nil {
		if !exported(name) {
			r.SkipMsg = "no such function; its callers are proved without it"
			return r
		}
		r.Oblig, r.Error = 1, "function does not exist"
		r.failed = []*Obl{{Fn: name, Kind: "exists", Verdict: Unknown}}
		return r
	}
	tags := c.prop
	if all {
		tags = ""
	}
	t0 := time.Now()
	{
		r.Attempts = attempt
		x := newExec(c.p, c.ct, c.pool, execCfg{prop: tags, boost: attempt})
		v := x.Verify(fc)
		discharge(x, v.Obls)
		c.retry(x, v.Obls, attempt)
		if c.prop != "C18" && c.prop != "C20" {
			v.Obls = append(v.Obls, v.Terms...)
		}
		r.failed = nil
		r.Oblig, r.Done, r.Exits, r.Inlined, r.Uses, r.Error = len(v.Obls), 0, v.Exits, v.Inlined, v.Used, v.Err
		r.Kinds = map[string]int{}
		for _, o := range v.Obls {
			r.Kinds[o.Kind]++
			if o.Verdict == Proved {
				r.Done++
			} else {
				r.failed = append(r.failed, o)
			}
		}
		if v.Err != "" {
			r.Oblig++
			r.failed = append(r.failed, &Obl{Fn: name, Kind: "within-reach", Label: v.Err, Verdict: Unknown})
		} else {
			discharge(x, v.Covers)
			live := 0
			for _, o := range v.Covers {
				if o.Verdict != Proved && o.Label == "exit" {
					live++
				}
			}
			if live == 0 {
				r.Oblig++
				r.failed = append(r.failed, &Obl{Fn: name, Kind: "returns", Label: "no return is reachable under the precondition", Verdict: Unknown})
			}
		}
		r.hopeless = v.Err != ""
	}
	r.GenSecs = time.Since(t0).Seconds()
	return r
}

// retry gives obligations that failed more time and other solver settings.
func (c *checker) retry(x *Exec, obls []*Obl, attempt int) {
	var bad []*Obl
	for _, o := range obls {
		if o.Verdict != Proved {
			bad = append(bad, o)
		}
	}
	if len(bad) == 0 {
		return
	}
	if c.search(); c.found || len(bad) > 12 {
		return
	}
	for _, o := range bad {
		if time.Now().After(c.deadline) {
			return
		}
		all := append(append([]*Term{}, o.assume...), o.goal)
		ex := x.ct.Theory.extra(all, x.p, nil)
		q := Query{preamble: x.preamble(), assume: append(append([]*Term{}, o.assume...), ex...), goals: []*Term{o.goal}, rlimit: 60_000_000,
			opts: "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :type_check true)\n"}
		if v := c.pool.Prove(q)[0]; v == Proved {
			o.Verdict, o.Backend = v, "z3 (second configuration)"
			continue
		}
		if c.pool.cvc5(q) {
			o.Verdict, o.Backend = Proved, "cvc5"
		}
	}
}

func (c *checker) run() int {
	own, dep := c.wanted()
	if len(own) == 0 {
		fmt.Println("no contract carries property", c.prop)
		return 2
	}
	var reps []*fnReport
	obl, done := 0, 0
	var failed []*Obl
	uses := map[string]bool{}
	kinds := map[string]int{}
	for i, n := range append(own[:len(own):len(own)], dep...) {
		r := c.verify(n, i >= len(own), 1)
		if len(r.failed) > 0 {
			// a failing input settles it; without one, a second attempt with more resources
			c.search()
			if !c.found && !r.hopeless && time.Now().Before(c.deadline) {
				t := r.GenSecs
				r = c.verify(n, i >= len(own), 2)
				r.GenSecs += t
			}
		}
		reps = append(reps, r)
		obl += r.Oblig
		done += r.Done
		failed = append(failed, r.failed...)
		for _, u := range r.Uses {
			uses[u] = true
		}
		for k, v := range r.Kinds {
			kinds[k] += v
		}
		if c.found && len(failed) > 0 {
			break
		}
	}
	// the lemmas the proofs used
	lo := c.ct.Theory.lemmaObls(c.p)
	if c.found {
		lo = nil
	}
	c.pool.Deadline = c.deadline.Add(60 * time.Second)
	dischargeLemmas(newExec(c.p, c.ct, c.pool, execCfg{}), lo)
	for _, o := range lo {
		obl++
		if o.Verdict == Proved {
			done++
		} else {
			failed = append(failed, o)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d solver queries, %.1fs\n", c.prop, obl, done, len(reps), c.pool.Queries, time.Since(c.t0).Seconds())
	code := 0
	violations := 0
	if len(failed) > 0 {
		violations = 1
		code = 1
		c.report(failed)
	}
	c.evidence(reps, lo, obl, done, kinds, uses, violations)
	return code
}

// search looks for a failing input, once.
func (c *checker) search() {
	if !c.searched {
		c.searched = true
		c.out, c.found = c.replay()
	}
}

// report writes the replay file, looks for a failing input on the real code
// and prints the violation.
func (c *checker) report(failed []*Obl) {
	dir := filepath.Join(c.verif, "out")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, "replay-"+c.prop+".txt")
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s\n\nfailed obligations:\n", c.prop)
	seen := map[string]bool{}
	for _, o := range failed {
		n := o.Name()
		if seen[n] {
			continue
		}
		seen[n] = true
		fmt.Fprintf(&b, "  %s\n", n)
		fmt.Println("failed obligation:", n)
	}
	fmt.Fprintf(&b, "\nverifier output:\n")
	for i, o := range failed {
		if i >= 6 || o.goal == nil {
			break
		}
		fmt.Fprintf(&b, "  %s: %s\n    path: %s\n    goal: %s\n", o.Name(), map[Verdict]string{Unknown: "unknown (incomplete quantifier reasoning)", Limited: "unknown (resource limit)", Refuted: "refuted"}[o.Verdict], strings.Join(o.trace, " "), clip(o.goal.String(), 4000))
	}
	c.search()
	out, found := c.out, c.found
	fmt.Fprintf(&b, "\nsearch for a failing input on the real code (%s):\n%s\n", c.replayCmd(), clip(out, 20000))
	os.WriteFile(path, b.Bytes(), 0o644)
	if found {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, path)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " …"
	}
	return s
}

func (c *checker) replayCmd() string {
	return fmt.Sprintf("VERIF_SEED=%d go test -race -overlay overlay.json -run 'TestReplay%s$' .", c.seed, c.prop)
}

// replay runs the property's oracle test against the real code.
func (c *checker) replay() (string, bool) {
	files, _ := filepath.Glob(filepath.Join(c.verif, "replay", "*.go"))
	tmp, err := os.MkdirTemp("", "gvc-replay")
	if err != nil {
		return err.Error(), false
	}
	defer os.RemoveAll(tmp)
	ov := map[string]map[string]string{"Replace": {}}
	have := false
	for _, f := range files {
		bn := filepath.Base(f)
		if bn != "common.go" && !strings.HasPrefix(bn, c.prop+"_") {
			// other properties' files are left out, so that a change to what
			// they use does not keep this one from compiling
			if !strings.HasPrefix(bn, "lib_") || !strings.Contains(bn, c.prop) {
				continue
			}
		}
		have = have || strings.HasPrefix(bn, c.prop+"_")
		ov["Replace"][filepath.Join(c.repo, "zz_gvc_"+strings.TrimSuffix(bn, ".go")+"_test.go")] = f
	}
	if !have {
		return "no replay harness", false
	}
	js, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, js, 0o644)
	race := "-race=false"
	if c.prop >= "C18" && c.prop <= "C20" {
		race = "-race"
	}
	if race == "-race" {
		c.withYields(tmp, ov["Replace"])
		js, _ = json.Marshal(ov)
		os.WriteFile(of, js, 0o644)
	}
	cmd := exec.Command("go", "test", race, "-vet=off", "-count=1", "-timeout", "200s", "-overlay", of, "-run", "TestReplay"+c.prop+"$", ".")
	cmd.Dir = c.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", fmt.Sprintf("VERIF_SEED=%d", c.seed), "VERIF_TIER="+c.tier)
	out, err := cmd.CombinedOutput()
	s := string(out)
	if err == nil {
		return s, false
	}
	return s, strings.Contains(s, "FAILING-INPUT") || strings.Contains(s, "WARNING: DATA RACE") || strings.Contains(s, "fatal error: ") || strings.Contains(s, "panic: ") && !strings.Contains(s, "build failed")
}

// withYields adds to an overlay copies of the code under test in which every
// statement is preceded by a call that sometimes pauses.
func (c *checker) withYields(tmp string, ov map[string]string) {
	files, _ := filepath.Glob(filepath.Join(c.repo, "*.go"))
	for i, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil || len(src) > 1<<18 {
			continue
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			continue
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				default:
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		sort.Ints(at)
		var b bytes.Buffer
		last := 0
		for _, p := range at {
			b.Write(src[last:p])
			b.WriteString("vyield(); ")
			last = p
		}
		b.Write(src[last:])
		to := filepath.Join(tmp, fmt.Sprintf("y%d.go", i))
		if os.WriteFile(to, b.Bytes(), 0o644) == nil {
			ov[f] = to
		}
	}
}

func (c *checker) evidence(reps []*fnReport, lo []*Obl, obl, done int, kinds map[string]int, uses map[string]bool, violations int) {
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	var trusted, assumed []string
	for u := range uses {
		switch {
		case strings.HasPrefix(u, "library: "):
			trusted = append(trusted, "assumed contract of "+strings.TrimPrefix(u, "library: "))
		case strings.HasPrefix(u, "contract: "):
			n := strings.TrimPrefix(u, "contract: ")
			if fc := c.ct.Funcs[n]; fc != nil && (fc.Kind != "func" || fc.Assumed) {
				assumed = append(assumed, "interface contract of "+n+" (callers may pass any implementation that keeps it)")
			}
		}
	}
	sort.Strings(trusted)
	sort.Strings(assumed)
	assumed = append(assumed, c.ct.Theory.axiomNames()...)
	assumed = append(assumed, generalAssumptions...)
	trusted = append([]string{"gvc (VC generator in /verif/gvc, over golang.org/x/tools/go/ssa v0.52.0)", "z3-new (and cvc5 on retry)", "the Go compiler and runtime"}, trusted...)
	backends := map[string]int{}
	for range lo {
		backends["z3"]++
	}
	var under []string
	for _, r := range reps {
		if r.SkipMsg == "" {
			under = append(under, r.Function)
		}
		backends["z3"] += r.Done
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": obl, "discharged": done,
			"checker_cmd":              fmt.Sprintf("VERIF_TIER=%s /verif/gvc/gvc check %s", c.tier, c.prop),
			"trusted_base":             trusted,
			"functions_under_contract": under,
			"obligations_by_kind":      kinds,
			"per_function":             reps,
			"lemmas":                   len(lo),
			"backend":                  backends,
			"solver_queries":           c.pool.Queries,
			"solver_seconds":           float64(c.pool.NanoZ3) / 1e9,
		},
		"assumptions": assumed,
		"wall_s":      time.Since(c.t0).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
}

var generalAssumptions = []string{
	"lengths and capacities of slices, maps and strings are below 2^62; integer arithmetic on lengths, positions and counters is checked against overflow under that bound",
	"calls of callbacks and of library functions return; a range over a map visits finitely many entries, whatever the loop adds to the map",
	"memory exhaustion and runtime failures are outside the contracts",
}
