// ---- C11: end to end ----
// The statements the documents were stored with, by position: any.
fun G0() Arr[Int,Str]
// the token listings are exactly the analysed statements
macro told(mi, G) = forall(d, Int, k, Str, imp(0 <= d && d < len(mi.Docs), in(d, aset(c(mi.InvertedIndex[k]), ln(mi.InvertedIndex, k))) == in(k, sset(tk(mi.tokenizer, G[d]), qlen(tk(mi.tokenizer, G[d]))))))

func MemoryIndex.Put#content(mi, payload) (res)
  use MemoryIndex.Put
  opt bycontract yes
  requires wf(mi) && told(mi, G0())
  let N = len(mi.Docs)
  ensures[C11] told: told(mi, store(G0(), N, payload.statement))
  ensures[C11] stored: len(mi.Docs) == N + 1 && c(mi.Docs)[N] == mk(Doc, payload.Name, payload.Content)

func NewMemoryIndex#content(name, tkr) (r)
  use NewMemoryIndex
  opt bycontract yes
  requires tkr != nil
  ensures[C11] told: told(r, G0())

// ---- an index answers the engines as its listings say ----
macro linked(mi) = ilen(mi) == len(mi.Docs) && forall(k, Str, iln(mi, k) == ln(mi.InvertedIndex, k))
      && forall(k, Str, i, Int, imp(in(k, mi.InvertedIndex) && 0 <= i && i < len(mi.InvertedIndex[k]), il(mi, k)[i] == c(mi.InvertedIndex[k])[i]))
      && forall(i, Int, imp(0 <= i && i < len(mi.Docs), idoc(mi, i) == c(mi.Docs)[i]))

func MemoryIndex.Len#indexer(mi) (n)
  requires wf(mi) && linked(mi)
  ensures[C11] n: n == ilen(mi) && n >= 0

func MemoryIndex.Document#indexer(mi, i) (d)
  requires wf(mi) && linked(mi) && 0 <= i && i < ilen(mi)
  ensures[C11] doc: d == idoc(mi, i)

func MemoryIndex.Indexed#indexer(mi, key) (r)
  use MemoryIndex.Indexed
  opt bycontract yes
  requires wf(mi) && linked(mi)
  ensures[C11] len: len(r) == iln(mi, key)
  ensures[C11] at: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == il(mi, key)[i]))
  ensures[C11] asc: asc(r)
  ensures[C11] bounded: bounded(r, ilen(mi))
  ensures[C11] own: fresh(r)

// statement G[d] contains each of Q[0..n)
rec fallq(Q SqS, n Int, t Ref, G Arr[Int,Str], d Int) Bool on n: true; fallq(Q, n-1, t, G, d) && in(qat(Q, n-1), sset(tk(t, G[d]), qlen(tk(t, G[d]))))
fun fset(Q SqS, n Int, t Ref, G Arr[Int,Str]) Arr[Int,Bool]
axiom fset_def(Q SqS, n Int, t Ref, G Arr[Int,Str], d Int) pat(in(d, fset(Q, n, t, G))): in(d, fset(Q, n, t, G)) == fallq(Q, n, t, G, d)
lemma mall_told(ix Ref, S Arr[Int,Str], Q SqS, n Int, t Ref, G Arr[Int,Str], d Int) induct n pat(fallq(Q, n, t, G, d), mset(ix, S, n)) pat(fallq(Q, n, t, G, d), mall(ix, S, n, d)):
      imp(forall(i, Int, imp(0 <= i && i < n, S[i] == qat(Q, i) && in(d, aset(il(ix, S[i]), iln(ix, S[i]))) == in(S[i], sset(tk(t, G[d]), qlen(tk(t, G[d])))))), mall(ix, S, n, d) == fallq(Q, n, t, G, d))
lemma cnt_told(P Arr[Int,Bool], ix Ref, S Arr[Int,Str], m Int, n Int) induct n pat(cnt(P, n), mset(ix, S, m)): imp(forall(i, Int, imp(0 <= i && i < n, in(i, P) == in(i, mset(ix, S, m)))), cnt(P, n) == cnt(mset(ix, S, m), n))
// how many of the documents D[0..n) in P, each with h hits, make the result v
rec focc(D Arr[Int,Doc], P Arr[Int,Bool], n Int, h Int, v SearchResult) Int on n: 0; focc(D, P, n-1, h, v) + ite(in(n-1, P) && mk(SearchResult, D[n-1], h) == v, 1, 0)
lemma focc_told(D Arr[Int,Doc], P Arr[Int,Bool], ix Ref, S Arr[Int,Str], m Int, n Int, h Int, v SearchResult) induct n pat(focc(D, P, n, h, v), mocc(ix, mset(ix, S, m), n, h, v)):
      imp(forall(i, Int, imp(0 <= i && i < n, D[i] == idoc(ix, i) && in(i, P) == in(i, mset(ix, S, m)))), focc(D, P, n, h, v) == mocc(ix, mset(ix, S, m), n, h, v))

func MemoryIndex.Search#linear(mi, payload, engine) (r)
  opt bind engine LinearSearch
  use LinearSearch
  requires wf(mi) && linked(mi) && told(mi, G0())
  let Q = tk(mi.tokenizer, payload)
  let q = qlen(tk(mi.tokenizer, payload))
  let F = fset(tk(mi.tokenizer, payload), qlen(tk(mi.tokenizer, payload)), mi.tokenizer, G0())
  ensures[C11] empty: imp(q == 0, len(r) == 0)
  ensures[C11] count: imp(q > 0, len(r) == cnt(F, len(mi.Docs)))
  ensures[C11] found: imp(q > 0, forall(d, Int, imp(0 <= d && d < len(mi.Docs) && fallq(Q, q, mi.tokenizer, G0(), d), c(r)[cnt(F, d)] == mk(SearchResult, c(mi.Docs)[d], q))))
  frame[C11]

func MemoryIndex.Search#hits(mi, payload, engine) (r)
  opt bind engine HitsSearch
  use HitsSearch
  requires wf(mi) && linked(mi) && told(mi, G0())
  let q = qlen(tk(mi.tokenizer, payload))
  let F = fset(tk(mi.tokenizer, payload), qlen(tk(mi.tokenizer, payload)), mi.tokenizer, G0())
  ensures[C11] empty: imp(q == 0, len(r) == 0)
  ensures[C11] count: imp(q > 0, len(r) == cnt(F, len(mi.Docs)))
  ensures[C11] found: imp(q > 0, forall(v, SearchResult, occ(c(r), len(r), v) == focc(c(mi.Docs), F, len(mi.Docs), q, v)))
  frame[C11]

func NewMemoryIndexBuilder(tkr) (r)
  opt apply name
  requires tkr != nil
  ensures[C11, C12] index: r != nil && typed(r, *MemoryIndex)
  ensures[C11, C12] empty: wf(cast(*MemoryIndex, r)) && len(cast(*MemoryIndex, r).Docs) == 0 && told(cast(*MemoryIndex, r), G0())
  ensures[C11, C12] tokenizer: cast(*MemoryIndex, r).tokenizer == tkr
  ensures[C12] own: ref(r) >= A0()
  frame[C11]
