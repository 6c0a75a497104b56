ghost hist Int

// ---- interfaces ----
iface Tokenizer.Tokenize(t, text) (r)
  modifies hist
  ensures seq: sq(c(r), len(r)) == tapply(t, text, old(hist))
  ensures step: hist == tstep(t, text, old(hist))

iface Filter.Filter(f, tokens) (r)
  modifies hist
  ensures seq: sq(c(r), len(r)) == fapply(f, sq(c(tokens), len(tokens)), old(hist))
  ensures step: hist == fstep(f, sq(c(tokens), len(tokens)), old(hist))

functype cleanFunc(f, r) (b)
  ensures def: b == accepts(f, r)

// ---- C01 ----
func TokenizationPipeline.Tokenize(p, text) (r)
  requires p != nil && p.tokenizer != nil
  requires forall(i, Int, imp(0 <= i && i < len(p.filters), c(p.filters)[i] != nil))
  let T0 = tapply(p.tokenizer, text, hist)
  let H0 = tstep(p.tokenizer, text, hist)
  ensures[C01] tokens: sq(c(r), len(r)) == folds(c(p.filters), len(p.filters), T0, H0)
  ensures[C01] once: hist == foldt(c(p.filters), len(p.filters), T0, H0)
  modifies hist
  frame[C01]
  inv tokens(R phi []string, I idx): sq(c(R), len(R)) == folds(c(p.filters), I, T0, H0)
  inv once(I idx): hist == foldt(c(p.filters), I, T0, H0)

func NewTokenizationPipeline(t, f) (r)
  ensures[C01] tokenizer: r != nil && r.tokenizer == t
  ensures[C01] count: len(r.filters) == len(f)
  ensures[C01] stages: forall(i, Int, imp(0 <= i && i < len(f), c(r.filters)[i] == old(c(f)[i])))
  frame[C01]
  inv copied(R any []Filter, I idx): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == c(f)[i]))

// ---- C02 ----
func CleanTokenizer.Tokenize(c0, text) (r)
  requires c0 != nil
  requires forall(i, Int, imp(0 <= i && i < len(c0.fns), c(c0.fns)[i] != nil))
  ensures[C02] runs: sq(c(r), len(r)) == ff(text, keptset(c(c0.fns), len(c0.fns)))
  frame[C02]
  pred rejects(r): !kept(c(c0.fns), len(c0.fns), r)
  pred accepts(r): kept(c(c0.fns), len(c0.fns), r)
  inv none(I idx, R any rune): !kept(c(c0.fns), I, R)
  inv some(B phi bool, I idx, R any rune): B == kept(c(c0.fns), I, R)
  inv somenot(B phi bool, I idx, R any rune): B == !kept(c(c0.fns), I, R)

func NewCleanTokenizer(fns) (r)
  requires forall(i, Int, imp(0 <= i && i < len(fns), c(fns)[i] != nil))
  ensures[C02] count: len(r.fns) == len(fns)
  ensures[C02] rules: forall(i, Int, imp(0 <= i && i < len(fns), c(r.fns)[i] == old(c(fns)[i])))
  frame[C02]
  inv copied(R any []cleanFunc, I idx): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == c(fns)[i]))
  inv copiedp(P any *CleanTokenizer, I idx): len(P.fns) == I && forall(i, Int, imp(0 <= i && i < I, c(P.fns)[i] == c(fns)[i])) && fresh(P.fns)
  inv copiedc(T phi CleanTokenizer, I idx): len(T.fns) == I && forall(i, Int, imp(0 <= i && i < I, c(T.fns)[i] == c(fns)[i])) && fresh(T.fns)

func NewKeepAlphanumericTokenizer() (r)
  use NewCleanTokenizer
  ensures[C02] exists: r != nil
  ensures[C02] rule: forall(x, Int, pat(isletter(x)), pat(isnumber(x)), pat(kept(c(r.fns), len(r.fns), x)), kept(c(r.fns), len(r.fns), x) == (isletter(x) || isnumber(x)))
  frame[C02]

// ---- C03 ----
func StopWordsFilter.Filter(s, tokens) (r)
  ensures[C03] count: len(r) == fl(c(tokens), len(tokens), dom(s.stopWords))
  ensures[C03] kept: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == fa(c(tokens), len(tokens), dom(s.stopWords))[i]))
  frame[C03]
  inv count(R phi []string, I idx): len(R) == fl(c(tokens), I, dom(s.stopWords))
  inv countn(J phi int, I idx): J == fl(c(tokens), I, dom(s.stopWords))
  inv kept(R any []string, I idx): forall(i, Int, imp(0 <= i && i < fl(c(tokens), I, dom(s.stopWords)), c(R)[i] == fa(c(tokens), I, dom(s.stopWords))[i]))

func NewStopWordsFilter(sw) (r)
  ensures[C03] same: forall(k, Str, in(k, dom(r.stopWords)) == old(in(k, dom(sw))))
  frame[C03]
  inv copied(M any map[string]struct{}, D it map[string]struct{}): forall(k, Str, in(k, dom(M)) == in(k, D))

// ---- C04 ----
func LowerCaseFilter.Filter(l, tokens) (r)
  ensures[C04] length: len(r) == len(tokens)
  ensures[C04] mapped: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == tolower(c(tokens)[i])))
  frame[C04]
  inv mapped(R any []string, I idx): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == tolower(c(tokens)[i])))
  inv mappeddown(R any []string, I idx): forall(i, Int, imp(I <= i && i < len(tokens), c(R)[i] == tolower(c(tokens)[i])))
  inv untouched(R any []string, I idx): forall(i, Int, imp(I <= i && i < len(tokens), c(R)[i] == c(tokens)[i]))

func SpanishStemmerFilter.Filter(s, tokens) (r)
  ensures[C04] length: len(r) == len(tokens)
  ensures[C04] mapped: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == stem(c(tokens)[i], s.removeStopWords)))
  frame[C04]
  inv mapped(R any []string, I idx): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == stem(c(tokens)[i], s.removeStopWords)))
  inv mappeddown(R any []string, I idx): forall(i, Int, imp(I <= i && i < len(tokens), c(R)[i] == stem(c(tokens)[i], s.removeStopWords)))
  inv untouched(R any []string, I idx): forall(i, Int, imp(I <= i && i < len(tokens), c(R)[i] == c(tokens)[i]))

func NewSpanishStemmer(b) (r)
  ensures[C04] kept: r.removeStopWords == b

func NewLowerCaseTokenizer() (r)
  frame[C04]
