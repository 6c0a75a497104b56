package visigoth

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

func TestReplayC25(t *testing.T) {
	v := newVrep(t)
	end := v.end
	v.end = time.Now().Add(time.Until(end) / 4)
	v.repos([]int{8, 8, 6, 6, 6, 8, 1, 2, 2, 3})
	v.end = end
	es := func() Tokenizer {
		return NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer(), NewStopWordsFilter(SpanishStopWords), NewSpanishStemmer(v.r.Intn(2) == 0))
	}
	fs := []Filter{NewLowerCaseTokenizer(), NewStopWordsFilter(SpanishStopWords), NewStopWordsFilter(nil), NewSpanishStemmer(true), NewSpanishStemmer(false)}
	engines := map[string]Engine{"linear": LinearSearch, "hits": HitsSearch, "zero": NoopZeroSearch, "all": NoopAllSearch}
	for v.more() {
		text := v.str(300)
		what := ""
		v.guard(func() string { return what }, func() {
			what = fmt.Sprintf("tokenizing %q", text)
			es().Tokenize(text)
			NewTokenizationPipeline(NewKeepAlphanumericTokenizer()).Tokenize(text)
			c := NewCleanTokenizer()
			c.Tokenize(text)
			var none *CleanTokenizer = new(CleanTokenizer)
			none.Tokenize(text)
			tokens := v.words(v.size(200), v.vocab())
			for i := range tokens {
				if v.r.Intn(3) == 0 {
					tokens[i] = v.str(8)
				}
			}
			if v.r.Intn(5) == 0 {
				tokens = nil
			}
			for i, f := range fs {
				what = fmt.Sprintf("filter %d (%T) on %q", i, f, tokens)
				f.Filter(vcopy(tokens))
				f.Filter(tokens)
			}
			w := []byte(v.str(9))
			if v.r.Intn(2) == 0 {
				w = []byte(vregword(v))
			}
			what = fmt.Sprintf("regions of %q", w)
			R1R2RV(w)
			what = fmt.Sprintf("document %q", text)
			NewDoc(text, text).Hash()
			NewDoc("", "").Hash()
			var tk Tokenizer = vtok{}
			if v.r.Intn(2) == 0 {
				tk = es()
			}
			in := NewMemoryIndex(v.str(3), tk)
			vocab := v.vocab()
			log := ""
			for n := v.docs(); n > 0; n-- {
				id, c, s := v.doc(vocab)
				log += fmt.Sprintf("put(%q, %q, %q); ", id, c, s)
				what = log
				in.Put(NewDocRequestWith(id, c, s))
			}
			for k := 0; k < 10; k++ {
				q := v.query(vocab)
				if v.r.Intn(4) == 0 {
					q = nil
				}
				for n, e := range engines {
					what = fmt.Sprintf("%ssearch %q with %s", log, q, n)
					in.Search(strings.Join(q, " "), e)
					e(q, in)
					e(vcopy(q), in)
				}
				what = fmt.Sprintf("%slooking up %q", log, q)
				for _, t := range q {
					in.Indexed(t)
				}
				in.Indexed("")
				in.Len()
				_ = in.String()
			}
		})
	}
}

// vregword is a word of vowels and other letters, of one and two bytes.
func vregword(v *vrep) string {
	var b strings.Builder
	for n := v.r.Intn(8); n > 0; n-- {
		b.WriteString([]string{"a", "e", "á", "ü", "b", "s", "ñ", "日", "\xff"}[v.r.Intn(9)])
	}
	return b.String()
}
