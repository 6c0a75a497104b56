package visigoth

import (
	"fmt"
	"sort"
	"strings"
)

// vidx is what an index should hold.
type vidx struct {
	docs  []Doc
	stmts []string
	inv   map[string][]int
}

func newVidx() *vidx { return &vidx{inv: map[string][]int{}} }

func (m *vidx) put(id, content, stmt string) {
	n := len(m.docs)
	m.docs = append(m.docs, Doc{Name: id, Content: content})
	m.stmts = append(m.stmts, stmt)
	seen := map[string]bool{}
	for _, t := range strings.Fields(stmt) {
		if !seen[t] {
			seen[t] = true
			m.inv[t] = append(m.inv[t], n)
		}
	}
}

func (m *vidx) diff(in *MemoryIndex) string {
	if len(in.Docs) != len(m.docs) {
		return fmt.Sprintf("%d documents, want %d", len(in.Docs), len(m.docs))
	}
	for i := range m.docs {
		if in.Docs[i] != m.docs[i] {
			return fmt.Sprintf("document %d is %q, want %q", i, in.Docs[i], m.docs[i])
		}
	}
	for k, l := range m.inv {
		if !veq(in.InvertedIndex[k], l) {
			return fmt.Sprintf("token %q lists %v, want %v", k, in.InvertedIndex[k], l)
		}
	}
	for k := range in.InvertedIndex {
		if _, ok := m.inv[k]; !ok {
			return fmt.Sprintf("token %q lists %v, want none", k, in.InvertedIndex[k])
		}
	}
	return ""
}

// match lists the documents with all tokens, in order.
func (m *vidx) match(tokens []string) []int {
	var out []int
	if len(tokens) == 0 {
		return nil
	}
	for d := range m.docs {
		all := true
		for _, t := range tokens {
			l := m.inv[t]
			i := sort.SearchInts(l, d)
			all = all && i < len(l) && l[i] == d
		}
		if all {
			out = append(out, d)
		}
	}
	return out
}

func (m *vidx) results(ds []int, hits int) []SearchResult {
	var out []SearchResult
	for _, d := range ds {
		out = append(out, SearchResult{Document: m.docs[d], Hits: hits})
	}
	return out
}

func (m *vidx) dump() string {
	var b strings.Builder
	for i, d := range m.docs {
		fmt.Fprintf(&b, "put(%q, %q, %q); ", d.Name, d.Content, m.stmts[i])
	}
	return b.String()
}

// vrandDoc makes a document; IDs repeat.
func (v *vrep) doc(vocab int) (id, content, stmt string) {
	id = fmt.Sprintf("d%d", v.r.Intn(6))
	switch v.r.Intn(6) {
	case 0:
		id = v.str(4)
	case 1:
		id = ""
	}
	content = strings.Join(v.words(v.size(12), vocab), " ")
	stmt = content
	if v.r.Intn(3) == 0 {
		stmt = strings.Join(v.words(v.size(40), vocab), " ")
	}
	if v.r.Intn(10) == 0 {
		stmt = ""
	}
	return
}

// fill puts n documents into both.
func (v *vrep) fill(in *MemoryIndex, m *vidx, n, vocab int) {
	for i := 0; i < n; i++ {
		id, c, s := v.doc(vocab)
		in.Put(NewDocRequestWith(id, c, s))
		m.put(id, c, s)
	}
}

func (v *vrep) query(vocab int) []string {
	n := v.size(12)
	if v.r.Intn(3) > 0 {
		n = 1 + v.r.Intn(3)
	}
	q := v.words(n, vocab)
	if n > 1 && v.r.Intn(4) == 0 {
		q[v.r.Intn(n)] = q[0]
	}
	if n > 0 && v.r.Intn(6) == 0 {
		q[v.r.Intn(n)] = "absent"
	}
	return q
}

func (v *vrep) vocab() int { return []int{1, 2, 3, 5, 10, 60}[v.r.Intn(6)] }

func (v *vrep) docs() int {
	if v.r.Intn(25) == 0 {
		return v.size(1500)
	}
	return v.size(60)
}
