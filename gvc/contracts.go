package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Clause is one labelled formula of a contract.
type Clause struct {
	Label string
	Tags  map[string]bool
	Expr  ast.Expr
	Src   string
}

// FuncContract specifies a function, an interface method or a function type.
type FuncContract struct {
	Kind     string // func, iface, functype
	Name     string
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Lets     []Clause // evaluated on entry
	Defs     []Clause // evaluated on exit
	Modifies []ast.Expr
	Invs     []InvTemplate
	Preds    []Pred
	Frame    map[string]bool // properties the "nothing else changes" clause belongs to
	HasFrame bool
	Depends  []Clause
	Conc     map[string]bool
	Assumed  bool
	Allocs   bool
	File     string
	Use      map[string]bool // callees to use by contract rather than inline
	Opts     map[string]string
}

type InvVar struct{ Name, Kind, Type string }

// InvTemplate is a candidate loop invariant, instantiated over loop values.
type InvTemplate struct {
	Label string
	Vars  []InvVar
	Expr  ast.Expr
	Src   string
}

// Pred is a candidate specification of a closure over runes.
type Pred struct {
	Label string
	Var   string
	Expr  ast.Expr
}

// Macro is a named expression.
type Macro struct {
	Params []string
	Expr   ast.Expr
}

// Lock protocol of a struct type.
type Protocol struct {
	Type   string
	Locks  []string            // in acquisition order
	Guards map[string][]string // lock -> fields
	Deep   map[string][]string // lock -> memory classes: "slice:<Go type>" or "ghost:<name>"
	Inv    []Clause
}

type Contracts struct {
	Funcs  map[string]*FuncContract
	Macros map[string]Macro
	Ghosts map[string]Sort
	GhostT map[string]string
	Protos map[string]*Protocol
	Theory *Theory
	Props  map[string]*PropSpec
	errs   []string
}

// PropSpec says what a property's check consists of.
type PropSpec struct {
	ID    string
	Funcs []string
	Lemma []string
	Conc  bool
}

var headRe = regexp.MustCompile(`^(func|iface|functype)\s+([\w.#]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)
var clauseRe = regexp.MustCompile(`^(requires|ensures|let|def|modifies|inv|pred|frame|depends|conc|assumed|allocs|use|opt)\b(?:\[([^\]]*)\])?\s*(.*)$`)
var labelRe = regexp.MustCompile(`^([A-Za-z_]\w*)\s*:([^=].*)$`)

func splitList(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func tagSet(s string) map[string]bool {
	if strings.TrimSpace(s) == "" {
		return nil
	}
	m := map[string]bool{}
	for _, t := range splitList(s) {
		m[t] = true
	}
	return m
}

func mustExpr(s, where string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, s))
	}
	return e
}

// logicalLines joins continuation lines (indented deeper than the clause, or
// with unbalanced parentheses) and drops comments.
func logicalLines(text string) []string {
	var out []string
	depth := 0
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		cont := depth > 0 || strings.HasPrefix(l, "      ")
		if cont && len(out) > 0 {
			out[len(out)-1] += " " + strings.TrimSpace(l)
		} else {
			out = append(out, strings.TrimRight(l, " \t"))
		}
		depth += strings.Count(l, "(") - strings.Count(l, ")")
	}
	return out
}

func LoadContracts(dir string) (c *Contracts, err error) {
	c = &Contracts{Funcs: map[string]*FuncContract{}, Macros: map[string]Macro{}, Ghosts: map[string]Sort{}, GhostT: map[string]string{},
		Protos: map[string]*Protocol{}, Theory: newTheory(), Props: map[string]*PropSpec{}}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(string); ok {
				err = fmt.Errorf("%v", r)
				return
			}
			panic(r)
		}
	}()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		c.parse(filepath.Base(f), string(b))
	}
	return c, nil
}

func (c *Contracts) parse(file, text string) {
	var cur *FuncContract
	var proto *Protocol
	for _, l := range logicalLines(text) {
		t := strings.TrimSpace(l)
		where := file + ": " + t
		if !strings.HasPrefix(l, " ") && !strings.HasPrefix(l, "\t") {
			cur, proto = nil, nil
			if m := headRe.FindStringSubmatch(t); m != nil {
				cur = &FuncContract{Kind: m[1], Name: m[2], Params: splitList(m[3]), Results: splitList(m[4]), File: file, Use: map[string]bool{}, Opts: map[string]string{}}
				if _, dup := c.Funcs[cur.Name]; dup {
					panic(where + ": duplicate contract")
				}
				c.Funcs[cur.Name] = cur
				continue
			}
			word, rest, _ := strings.Cut(t, " ")
			rest = strings.TrimSpace(rest)
			switch word {
			case "macro":
				i := strings.Index(rest, "=")
				head := strings.TrimSpace(rest[:i])
				p := strings.Index(head, "(")
				c.Macros[strings.TrimSpace(head[:p])] = Macro{splitList(strings.TrimSuffix(head[p+1:], ")")), mustExpr(rest[i+1:], where)}
			case "ghost":
				n, s, _ := strings.Cut(rest, " ")
				c.GhostT[n] = strings.TrimSpace(s)
			case "protocol":
				proto = &Protocol{Type: rest, Guards: map[string][]string{}, Deep: map[string][]string{}}
				c.Protos[rest] = proto
			case "property":
				id, fns, _ := strings.Cut(rest, ":")
				p := &PropSpec{ID: strings.TrimSpace(id)}
				for _, f := range splitList(fns) {
					switch {
					case f == "conc":
						p.Conc = true
					case strings.HasPrefix(f, "lemma "):
						p.Lemma = append(p.Lemma, strings.TrimPrefix(f, "lemma "))
					default:
						p.Funcs = append(p.Funcs, f)
					}
				}
				c.Props[p.ID] = p
			case "sort", "fun", "rec", "axiom", "lemma":
				c.Theory.parse(word, rest, where)
			default:
				panic(where + ": unknown declaration")
			}
			continue
		}
		if proto != nil {
			word, rest, _ := strings.Cut(t, " ")
			switch word {
			case "order":
				proto.Locks = splitList(rest)
			case "guards":
				k, v, _ := strings.Cut(rest, ":")
				for _, g := range splitList(v) {
					if strings.Contains(g, ":") {
						proto.Deep[strings.TrimSpace(k)] = append(proto.Deep[strings.TrimSpace(k)], g)
					} else {
						proto.Guards[strings.TrimSpace(k)] = append(proto.Guards[strings.TrimSpace(k)], g)
					}
				}
			case "invariant":
				proto.Inv = append(proto.Inv, parseClause("", rest, where))
			default:
				panic(where + ": unknown protocol clause")
			}
			continue
		}
		if cur == nil {
			panic(where + ": clause outside a contract")
		}
		m := clauseRe.FindStringSubmatch(t)
		if m == nil {
			panic(where + ": unknown clause")
		}
		kw, tags, rest := m[1], m[2], strings.TrimSpace(m[3])
		switch kw {
		case "requires":
			cur.Requires = append(cur.Requires, parseClause(tags, rest, where))
		case "ensures":
			cur.Ensures = append(cur.Ensures, parseClause(tags, rest, where))
		case "let":
			cur.Lets = append(cur.Lets, parseClause(tags, strings.Replace(rest, "=", ":", 1), where))
		case "def":
			cur.Defs = append(cur.Defs, parseClause(tags, strings.Replace(rest, "=", ":", 1), where))
		case "modifies":
			e := mustExpr("f("+rest+")", where).(*ast.CallExpr)
			cur.Modifies = append(cur.Modifies, e.Args...)
		case "frame":
			cur.HasFrame = true
			cur.Frame = tagSet(tags)
		case "depends":
			cur.Depends = append(cur.Depends, parseClause(tags, rest, where))
		case "conc":
			cur.Conc = tagSet(tags)
		case "assumed":
			cur.Assumed = true
		case "allocs":
			cur.Allocs = true
		case "use":
			for _, u := range splitList(rest) {
				cur.Use[u] = true
			}
		case "opt":
			k, v, _ := strings.Cut(rest, " ")
			cur.Opts[k] = strings.TrimSpace(v)
		case "pred":
			p := regexp.MustCompile(`^(\w+)\((\w+)\)\s*:(.*)$`).FindStringSubmatch(rest)
			if p == nil {
				panic(where + ": bad pred")
			}
			cur.Preds = append(cur.Preds, Pred{p[1], p[2], mustExpr(p[3], where)})
		case "inv":
			p := strings.Index(rest, "(")
			q := matchParen(rest, p)
			iv := InvTemplate{Label: strings.TrimSpace(rest[:p]), Src: rest}
			for _, v := range splitTop(rest[p+1 : q]) {
				fs := strings.Fields(v)
				w := InvVar{Name: fs[0], Kind: fs[1]}
				if len(fs) > 2 {
					w.Type = strings.Join(fs[2:], " ")
				}
				iv.Vars = append(iv.Vars, w)
			}
			body := strings.TrimSpace(rest[q+1:])
			iv.Expr = mustExpr(strings.TrimPrefix(body, ":"), where)
			cur.Invs = append(cur.Invs, iv)
		}
	}
}

func matchParen(s string, p int) int {
	d := 0
	for i := p; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	panic("unbalanced: " + s)
}

// splitTop splits at commas outside brackets.
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, ch := range s {
		switch ch {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if p := strings.TrimSpace(s[st:]); p != "" {
		out = append(out, p)
	}
	return out
}

func parseClause(tags, rest, where string) Clause {
	cl := Clause{Tags: tagSet(tags), Src: rest}
	if m := labelRe.FindStringSubmatch(rest); m != nil {
		cl.Label, rest = m[1], m[2]
	}
	cl.Expr = mustExpr(rest, where)
	return cl
}
