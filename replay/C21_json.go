package visigoth

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"testing"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/mailru/easyjson/jlexer"
	"github.com/mailru/easyjson/jwriter"
)

// vquote writes a JSON string, escaping some characters that need not be.
func (v *vrep) vquote(s string, often int) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			fmt.Fprintf(&b, "\\%c", r)
		case r < 32 || (often > 0 && v.r.Intn(often) == 0):
			if r > 0xffff {
				h, l := utf16.EncodeRune(r)
				fmt.Fprintf(&b, "\\u%04x\\u%04X", h, l)
			} else {
				fmt.Fprintf(&b, "\\u%04x", r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (v *vrep) vspace() string {
	if v.r.Intn(3) > 0 {
		return ""
	}
	return []string{" ", "\n", "\t ", "\r\n"}[v.r.Intn(4)]
}

// vany is a value of an unknown field.
func (v *vrep) vany(depth int) string {
	k := v.r.Intn(9)
	if depth == 0 && k > 5 {
		k = 0
	}
	switch k {
	case 0:
		return v.vquote(v.jtext(), 4)
	case 1:
		return fmt.Sprint(v.jhits())
	case 2:
		return []string{"-1.5e3", "0.25", "1E400", "123456789012345678901234567890"}[v.r.Intn(4)]
	case 3:
		return "true"
	case 4:
		return "false"
	case 5:
		return "null"
	case 6:
		n := v.r.Intn(4)
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, v.vspace()+v.vany(depth-1)+v.vspace())
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	return v.vobj(nil, depth-1)
}

var vknown = map[string]bool{"doc": true, "hits": true, "id": true, "raw": true}

// vobj writes an object with the members given, in some order, among unknown ones.
func (v *vrep) vobj(ms [][2]string, depth int) string {
	var p []string
	for _, m := range ms {
		p = append(p, v.vquote(m[0], v.r.Intn(6))+v.vspace()+":"+v.vspace()+m[1])
	}
	for n := v.r.Intn(4); n > 0; n-- {
		k := v.jtext()
		if v.r.Intn(2) == 0 {
			k = []string{"Doc", "HITS", "iD", "RAW", "score", "", "docs", "hit", "content", "name"}[v.r.Intn(10)]
		}
		if ms == nil && v.r.Intn(2) == 0 {
			k = []string{"doc", "hits", "id", "raw"}[v.r.Intn(4)]
		} else if vknown[k] {
			continue
		}
		if depth < 0 {
			depth = 0
		}
		p = append(p, v.vquote(k, v.r.Intn(6))+v.vspace()+":"+v.vspace()+v.vany(depth))
	}
	v.r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	return "{" + v.vspace() + strings.Join(p, v.vspace()+","+v.vspace()) + v.vspace() + "}"
}

func (v *vrep) jtext() string {
	s := v.str(40)
	if v.r.Intn(3) == 0 {
		s += []string{"\"", "\\", "<b>&amp;</b>", "\u2028\u2029", "\x00\x01\x1f\x7f", "{\"id\":\"x\"}", "\\u0041", "\ufffd", "null", "\U0010ffff", "\t\r\n"}[v.r.Intn(11)]
		s += v.str(6)
	}
	return strings.ToValidUTF8(s, "")
}

func (v *vrep) jhits() int {
	switch v.r.Intn(6) {
	case 0:
		return []int{math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, 255, 256, 127, 128, 65535, 65536, -128, -129, -32768, -32769}[v.r.Intn(20)]
	case 1:
		return int(v.r.Uint64())
	case 2:
		return -v.r.Intn(1000)
	}
	return v.r.Intn(1000)
}

func TestReplayC21(t *testing.T) {
	v := newVrep(t)
	for v.more() {
		want := SearchResult{Document: Doc{Name: v.jtext(), Content: v.jtext()}, Hits: v.jhits()}
		if v.r.Intn(5) == 0 {
			want.Hits = 0
		}
		if v.r.Intn(5) == 0 {
			want.Document.Content = ""
		}
		if v.r.Intn(5) == 0 {
			want.Document.Name = ""
		}
		stale := SearchResult{Document: Doc{Name: v.jtext(), Content: v.jtext()}, Hits: v.jhits()}
		same := func(what string, text []byte, dec func(b []byte, to *SearchResult) error) {
			for i := 0; i < 2; i++ {
				var got SearchResult
				if i == 1 {
					got = stale
				}
				in := bytes.Clone(text)
				if err := dec(in, &got); err != nil {
					v.fail("%s of %s: %v", what, text, err)
				}
				for k := range in {
					in[k] = 'x'
				}
				if got != want {
					v.fail("%s of %s into %+q: got %+q %d want %+q %d", what, text, stale, got.Document, got.Hits, want.Document, want.Hits)
				}
			}
		}
		direct := func(b []byte, to *SearchResult) error { return to.UnmarshalJSON(b) }
		easy := func(b []byte, to *SearchResult) error {
			l := jlexer.Lexer{Data: b}
			to.UnmarshalEasyJSON(&l)
			l.Consumed()
			return l.Error()
		}
		std := func(b []byte, to *SearchResult) error { return json.Unmarshal(b, to) }
		inside := func(b []byte, to *SearchResult) error {
			l := jlexer.Lexer{Data: []byte(`[1,` + string(b) + `,{"a":2}]`)}
			l.Delim('[')
			if l.Int() != 1 {
				return fmt.Errorf("lost the element before")
			}
			l.WantComma()
			to.UnmarshalEasyJSON(&l)
			l.WantComma()
			l.SkipRecursive()
			l.WantComma()
			l.Delim(']')
			l.Consumed()
			return l.Error()
		}
		v.guard(func() string { return fmt.Sprintf("%+q %d", want.Document, want.Hits) }, func() {
			b, err := want.MarshalJSON()
			if err != nil {
				v.fail("MarshalJSON of %+q %d: %v", want.Document, want.Hits, err)
			}
			var w jwriter.Writer
			w.RawString("[7,")
			want.MarshalEasyJSON(&w)
			w.RawString("]")
			e, err := w.BuildBytes()
			if err != nil {
				v.fail("MarshalEasyJSON of %+q: %v", want, err)
			}
			if n := len(e); n < 4 || string(e[:3]) != "[7," || e[n-1] != ']' {
				v.fail("MarshalEasyJSON of %+q after [7, wrote %s", want, e)
			}
			s, err := json.Marshal(want)
			if err != nil {
				v.fail("json.Marshal of %+q: %v", want, err)
			}
			for i, b := range [][]byte{b, e[3 : len(e)-1], s} {
				what := []string{"MarshalJSON", "MarshalEasyJSON", "json.Marshal"}[i]
				var g struct {
					Doc *struct {
						ID  *string `json:"id"`
						Raw *string `json:"raw"`
					} `json:"doc"`
					Hits *json.Number `json:"hits"`
				}
				if err := json.Unmarshal(b, &g); err != nil || g.Doc == nil || g.Doc.ID == nil || g.Doc.Raw == nil || g.Hits == nil {
					v.fail("%s of %+q %d gives %s, which lacks a field (%v)", what, want.Document, want.Hits, b, err)
				}
				if *g.Doc.ID != want.Document.Name || *g.Doc.Raw != want.Document.Content || g.Hits.String() != fmt.Sprint(want.Hits) {
					v.fail("%s of %+q %d gives %s", what, want.Document, want.Hits, b)
				}
				same(what+", UnmarshalJSON", b, direct)
				same(what+", UnmarshalEasyJSON", b, easy)
				same(what+", UnmarshalEasyJSON", b, inside)
			}
			if !utf8.Valid(b) {
				v.fail("MarshalJSON of %+q gives invalid text %q", want, b)
			}
			for i := 0; i < 4; i++ {
				doc := v.vobj([][2]string{{"id", v.vquote(want.Document.Name, v.r.Intn(4))}, {"raw", v.vquote(want.Document.Content, v.r.Intn(4))}}, 2)
				text := v.vspace() + v.vobj([][2]string{{"doc", doc}, {"hits", fmt.Sprint(want.Hits)}}, 2) + v.vspace()
				if !json.Valid([]byte(text)) {
					t.Fatalf("harness: %s", text)
				}
				same("UnmarshalJSON", []byte(text), direct)
				same("json.Unmarshal", []byte(text), std)
				same("UnmarshalEasyJSON", []byte(text), inside)
			}
		})
	}
}
