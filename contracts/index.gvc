// A tokenizer used by an index is a function of the text (C01 covers stages with state).
fun tk(t Ref, s Str) SqS
iface tokenizer.Tokenize(t, text) (r)
  ensures seq: sq(c(r), len(r)) == tk(t, text)

// listing of token k in map m: strictly increasing positions of stored documents
macro asc(L) = forall(i, Int, j, Int, imp(0 <= i && i < j && j < len(L), c(L)[i] < c(L)[j]))
macro bounded(L, n) = forall(i, Int, imp(0 <= i && i < len(L), 0 <= c(L)[i] && c(L)[i] < n))
macro L(m, k) = m[k]
macro wfm(m, n) = forall(k, Str, imp(in(k, m), ref(m[k]) >= 0 && len(m[k]) >= 0 && len(m[k]) <= cap(m[k]) && imp(ref(m[k]) == 0, cap(m[k]) == 0) && allocated(m[k])))
      && forall(k, Str, i, Int, imp(in(k, m) && 0 <= i && i < len(m[k]), 0 <= c(m[k])[i] && c(m[k])[i] < n))
      && forall(k, Str, i, Int, j, Int, imp(in(k, m) && 0 <= i && i < j && j < len(m[k]), c(m[k])[i] < c(m[k])[j]))
      && forall(k, Str, l, Str, imp(in(k, m) && in(l, m) && k != l, ref(m[k]) != ref(m[l]) || ref(m[k]) == 0))
macro wf(mi) = mi != nil && mi.tokenizer != nil && mi.InvertedIndex != nil && wfm(mi.InvertedIndex, len(mi.Docs))
macro ln(m, k) = ite(in(k, m), len(m[k]), 0)

func MemoryIndex.Put(mi, payload) (res)
  requires wf(mi)
  let S = tk(mi.tokenizer, payload.statement)
  let N = len(mi.Docs)
  let m = mi.InvertedIndex
  modifies mi.Docs, c(mi.Docs), entries(mi.InvertedIndex), slices(int, r, exists(k, Str, in(k, mi.InvertedIndex) && ref(mi.InvertedIndex[k]) == r))
  ensures[C05, C12] self: res == mi && mi.InvertedIndex == m && mi.tokenizer == old(mi.tokenizer)
  ensures[C05] stored: len(mi.Docs) == N + 1 && c(mi.Docs)[N] == mk(Doc, payload.Name, payload.Content)
  ensures[C05] docs: forall(i, Int, imp(0 <= i && i < N, c(mi.Docs)[i] == old(c(mi.Docs)[i])))
  ensures[C05] keys: forall(k, Str, in(k, m) == (old(in(k, m)) || in(k, sset(S, qlen(S)))))
  ensures[C05] listed: forall(k, Str, imp(in(k, sset(S, qlen(S))), in(k, m) && len(m[k]) == old(ln(m, k)) + 1 && c(m[k])[len(m[k])-1] == N))
  ensures[C05] others: forall(k, Str, imp(old(in(k, m)) && !in(k, sset(S, qlen(S))), len(m[k]) == old(len(m[k]))))
  ensures[C05] kept: forall(k, Str, i, Int, imp(old(in(k, m)) && 0 <= i && i < old(len(m[k])), c(m[k])[i] == old(c(m[k])[i])))
  ensures[C05] wf: wf(mi)
  frame[C05]
  inv keys(I idx): forall(k, Str, in(k, m) == (old(in(k, m)) || in(k, sset(S, I))))
  inv listed(I idx): forall(k, Str, imp(in(k, sset(S, I)), in(k, m) && len(m[k]) == old(ln(m, k)) + 1 && c(m[k])[len(m[k])-1] == N))
  inv others(I idx): forall(k, Str, imp(old(in(k, m)) && !in(k, sset(S, I)), len(m[k]) == old(len(m[k]))))
  inv uset(U phi []string, I pos): forall(k, Str, in(k, nset(c(U), len(U))) == in(k, sset(S, I)))
  inv uonce(U phi []string): forall(i, Int, imp(0 <= i && i < len(U), npos(c(U), len(U), c(U)[i]) == i))
  inv keysu(U made []string, I pos): forall(k, Str, in(k, m) == (old(in(k, m)) || in(k, nset(c(U), I))))
  inv listedu(U made []string, I pos): forall(k, Str, imp(in(k, nset(c(U), I)), in(k, m) && len(m[k]) == old(ln(m, k)) + 1 && c(m[k])[len(m[k])-1] == N))
  inv othersu(U made []string, I pos): forall(k, Str, imp(old(in(k, m)) && !in(k, nset(c(U), I)), len(m[k]) == old(len(m[k]))))
  inv keysv(V it map[string]struct{}): forall(k, Str, in(k, m) == (old(in(k, m)) || in(k, V)))
  inv listedv(V it map[string]struct{}): forall(k, Str, imp(in(k, V), in(k, m) && len(m[k]) == old(ln(m, k)) + 1 && c(m[k])[len(m[k])-1] == N))
  inv othersv(V it map[string]struct{}): forall(k, Str, imp(old(in(k, m)) && !in(k, V), len(m[k]) == old(len(m[k]))))
  inv keysw(V it map[string]bool): forall(k, Str, in(k, m) == (old(in(k, m)) || in(k, V)))
  inv listedw(V it map[string]bool): forall(k, Str, imp(in(k, V), in(k, m) && len(m[k]) == old(ln(m, k)) + 1 && c(m[k])[len(m[k])-1] == N))
  inv othersw(V it map[string]bool): forall(k, Str, imp(old(in(k, m)) && !in(k, V), len(m[k]) == old(len(m[k]))))
  inv kept(): forall(k, Str, i, Int, imp(old(in(k, m)) && 0 <= i && i < old(len(m[k])), c(m[k])[i] == old(c(m[k])[i])))
  inv wfm(): wfm(m, N + 1)
  inv slices(): forall(k, Str, imp(in(k, m), ref(m[k]) >= A0() || old(in(k, m)) && ref(m[k]) == old(ref(m[k]))))
  inv seen(M any map[string]struct{}, I idx): forall(k, Str, in(k, M) == in(k, sset(S, I)))
  inv seenb(M any map[string]bool, I idx): forall(k, Str, (in(k, M) && M[k]) == in(k, sset(S, I)))
  inv notyet(J idx, Q any []int): forall(i, Int, imp(0 <= i && i < J, c(Q)[i] != N))

func MemoryIndex.Len(mi) (n)
  requires wf(mi)
  ensures[C06] n: n == len(mi.Docs)
  frame[C06]

func MemoryIndex.Document(mi, i) (d)
  requires wf(mi) && 0 <= i && i < len(mi.Docs)
  ensures[C06] d: d == c(mi.Docs)[i]
  frame[C06]

func MemoryIndex.Indexed(mi, key) (r)
  requires wf(mi)
  let m = mi.InvertedIndex
  ensures[C06] length: len(r) == ln(m, key)
  ensures[C06] listing: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == c(m[key])[i]))
  ensures[C06] own: fresh(r)
  frame[C06]
  inv copied(R any []int, I idx): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == c(m[key])[i]))
  inv len(R phi []int, I idx): len(R) == I

// an engine is a function of the tokens and of what the index answers
fun eat(e Ref, S SqS, ix Ref) Arr[Int,SearchResult]
fun ecount(e Ref, S SqS, ix Ref) Int
functype Engine(e, tokens, indexable) (r)
  requires indexable != nil
  ensures len: len(r) == ecount(e, sq(c(tokens), len(tokens)), ref(indexable))
  ensures at: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == eat(e, sq(c(tokens), len(tokens)), ref(indexable))[i]))
  ensures own: fresh(r)

func MemoryIndex.Search(mi, payload, engine) (r)
  requires wf(mi) && engine != nil
  let S = tk(mi.tokenizer, payload)
  ensures[C06] count: len(r) == ecount(engine, S, ref(mi))
  ensures[C06] results: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == eat(engine, S, ref(mi))[i]))
  ensures[C06] own: fresh(r)
  frame[C06]

func MemoryIndex.String(mi) (r)
  requires wf(mi)
  frame[C06]

func NewMemoryIndex(name, tkr) (r)
  requires tkr != nil
  ensures[C05, C11] empty: r != nil && len(r.Docs) == 0 && forall(k, Str, !in(k, r.InvertedIndex))
  ensures[C05] tokenizer: r.tokenizer == tkr
  ensures[C05] wf: wf(r)
  ensures[C05] own: fresh(r.InvertedIndex) && fresh(r.Docs) && ref(r) >= A0()
  frame[C05]
