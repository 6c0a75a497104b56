// ---- what an index answers ----
fun ilen(ix Ref) Int
axiom ilen_pos(ix Ref) pat(ilen(ix)): ilen(ix) >= 0
fun il(ix Ref, k Str) Arr[Int,Int]
fun iln(ix Ref, k Str) Int
fun idoc(ix Ref, i Int) Doc

iface Indexer.Indexed(ix, key) (r)
  ensures len: len(r) == iln(ix, key)
  ensures at: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == il(ix, key)[i]))
  ensures asc: asc(r)
  ensures bounded: bounded(r, ilen(ix))
  ensures own: fresh(r)

iface Indexer.Document(ix, i) (d)
  requires 0 <= i && i < ilen(ix)
  ensures doc: d == idoc(ix, i)

iface Indexer.Len(ix) (n)
  ensures n: n == ilen(ix) && n >= 0

// the documents listed under token k
macro has(ix, k, d) = in(d, aset(il(ix, k), iln(ix, k)))
// documents listed under every one of S[0..n)
rec mall(ix Ref, S Arr[Int,Str], n Int, d Int) Bool on n: true; mall(ix, S, n-1, d) && in(d, aset(il(ix, S[n-1]), iln(ix, S[n-1])))
fun mset(ix Ref, S Arr[Int,Str], n Int) Arr[Int,Bool]
axiom mset_def(ix Ref, S Arr[Int,Str], n Int, d Int) pat(in(d, mset(ix, S, n))): in(d, mset(ix, S, n)) == mall(ix, S, n, d)
lemma mall_prefix(ix Ref, S Arr[Int,Str], n Int, m Int, d Int) induct n pat(mall(ix, S, n, d), mall(ix, S, m, d)): imp(0 <= m && m <= n && mall(ix, S, n, d), mall(ix, S, m, d))
lemma mall_each(ix Ref, S Arr[Int,Str], n Int, i Int, d Int) induct n pat(mall(ix, S, n, d), iln(ix, S[i])): imp(0 <= i && i < n && mall(ix, S, n, d), in(d, aset(il(ix, S[i]), iln(ix, S[i]))))

// ---- C07 ----
func intersection(a, b) (r)
  requires asc(a) && asc(b)
  ensures[C07] asc: asc(r)
  ensures[C07] both: forall(d, Int, in(d, aset(c(r), len(r))) == (in(d, aset(c(a), len(a))) && in(d, aset(c(b), len(b)))))
  frame[C07]
  inv asc(R phi []int): asc(R)
  inv above(R phi []int, I pos, J pos): forall(k, Int, imp(0 <= k && k < len(R) && I < len(a), c(R)[k] < c(a)[I]))
  inv aboveb(R phi []int, I pos, J pos): forall(k, Int, imp(0 <= k && k < len(R) && J < len(b), c(R)[k] < c(b)[J]))
  inv both(R phi []int, I pos, J pos): forall(d, Int, in(d, aset(c(R), len(R))) == (in(d, aset(c(a), I)) && in(d, aset(c(b), J))))
  inv passed(I pos, J pos): forall(k, Int, imp(0 <= k && k < J && I < len(a), c(b)[k] < c(a)[I]))
  inv passedb(I pos, J pos): forall(k, Int, imp(0 <= k && k < I && J < len(b), c(a)[k] < c(b)[J]))

func LinearSearch(tokens, indexable) (r)
  use intersection
  requires indexable != nil
  let N = ilen(indexable)
  let n = len(tokens)
  let M = mset(indexable, c(tokens), len(tokens))
  ensures[C07] empty: imp(n == 0, len(r) == 0)
  ensures[C07] count: imp(n > 0, len(r) == cnt(M, N))
  ensures[C07] results: imp(n > 0, forall(d, Int, imp(0 <= d && d < N && mall(indexable, c(tokens), n, d), c(r)[cnt(M, d)] == mk(SearchResult, idoc(indexable, d), n))))
  ensures[C06] own: fresh(r)
  frame[C06, C07]
  inv asc(D phi []int): asc(D)
  inv bounded(D phi []int): bounded(D, N)
  inv match(D phi []int, I idx): imp(I > 0, forall(d, Int, in(d, aset(c(D), len(D))) == mall(indexable, c(tokens), I, d)))
  inv matchset(D phi []int, I idx): imp(I > 0, aset(c(D), len(D)) == mset(indexable, c(tokens), I))
  inv lists(P any [][]int, I idx): forall(i, Int, imp(0 <= i && i < I, allocated(c(P)[i]) && len(c(P)[i]) == iln(indexable, c(tokens)[i]) && asc(c(P)[i]) && bounded(c(P)[i], N)))
  inv listsets(P any [][]int, I idx): forall(i, Int, imp(0 <= i && i < I, aset(c(c(P)[i]), len(c(P)[i])) == aset(il(indexable, c(tokens)[i]), iln(indexable, c(tokens)[i]))))
  inv count(R phi []SearchResult, I idx): len(R) == I
  inv results(R any []SearchResult, D any []int, I idx): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == mk(SearchResult, idoc(indexable, c(D)[i]), n)))

// ---- C08, C09 ----
// how many of the tokens S[0..n) document d is listed under
rec hcnt(ix Ref, S Arr[Int,Str], n Int, d Int) Int on n: 0; hcnt(ix, S, n-1, d) + ite(in(d, aset(il(ix, S[n-1]), iln(ix, S[n-1]))), 1, 0)
lemma hcnt_all(ix Ref, S Arr[Int,Str], n Int, d Int) induct n pat(hcnt(ix, S, n, d)): 0 <= hcnt(ix, S, n, d) && imp(n >= 0, hcnt(ix, S, n, d) <= n && (hcnt(ix, S, n, d) == n) == mall(ix, S, n, d))
// how many of the documents 0..n-1 in P, each with h hits, make the result v
rec mocc(ix Ref, P Arr[Int,Bool], n Int, h Int, v SearchResult) Int on n: 0; mocc(ix, P, n-1, h, v) + ite(in(n-1, P) && mk(SearchResult, idoc(ix, n-1), h) == v, 1, 0)

func HitsSearch(tokens, indexer) (r)
  requires indexer != nil
  let N = ilen(indexer)
  let n = len(tokens)
  let M = ite(len(tokens) == 0, emptyset(Int), mset(indexer, c(tokens), len(tokens)))
  ensures[C08] count: len(r) == cnt(M, N)
  ensures[C08] results: forall(v, SearchResult, occ(c(r), len(r), v) == mocc(indexer, M, N, n, v))
  ensures[C09] order: forall(i, Int, j, Int, imp(0 <= i && i < j && j < len(r), c(r)[i].Hits > c(r)[j].Hits || c(r)[i].Hits == c(r)[j].Hits && !strlt(c(r)[j].Document.Name, c(r)[i].Document.Name)))
  ensures[C06] own: fresh(r)
  frame[C06, C08]
  inv seen(H any map[int]SearchResult, I idx): forall(d, Int, in(d, H) == (hcnt(indexer, c(tokens), I, d) > 0))
  inv hits(H any map[int]SearchResult, I idx): forall(d, Int, imp(in(d, H), H[d] == mk(SearchResult, idoc(indexer, d), hcnt(indexer, c(tokens), I, d))))
  inv seenin(H any map[int]SearchResult, L any []int, I idx, J idx): forall(d, Int, in(d, H) == (hcnt(indexer, c(tokens), I, d) > 0 || in(d, aset(c(L), J))))
  inv hitsin(H any map[int]SearchResult, L any []int, I idx, J idx): forall(d, Int, imp(in(d, H), H[d] == mk(SearchResult, idoc(indexer, d), hcnt(indexer, c(tokens), I, d) + ite(in(d, aset(c(L), J)), 1, 0))))
  inv seenn(H any map[int]int, I idx): forall(d, Int, in(d, H) == (hcnt(indexer, c(tokens), I, d) > 0))
  inv hitsn(H any map[int]int, I idx): forall(d, Int, imp(in(d, H), H[d] == hcnt(indexer, c(tokens), I, d)))
  inv seeninn(H any map[int]int, L any []int, I idx, J idx): forall(d, Int, in(d, H) == (hcnt(indexer, c(tokens), I, d) > 0 || in(d, aset(c(L), J))))
  inv hitsinn(H any map[int]int, L any []int, I idx, J idx): forall(d, Int, imp(in(d, H), H[d] == hcnt(indexer, c(tokens), I, d) + ite(in(d, aset(c(L), J)), 1, 0)))
  inv slots(H any []int, I idx): forall(d, Int, imp(0 <= d && d < N, c(H)[d] == hcnt(indexer, c(tokens), I, d)))
  inv slotsin(H any []int, L any []int, I idx, J idx): forall(d, Int, imp(0 <= d && d < N, c(H)[d] == hcnt(indexer, c(tokens), I, d) + ite(in(d, aset(c(L), J)), 1, 0)))
  inv count(R phi []SearchResult, I idx): len(R) == cnt(M, I)
  inv results(R phi []SearchResult, I idx): forall(v, SearchResult, occ(c(R), len(R), v) == mocc(indexer, M, I, n, v))

func SearchResults.Less(s, i, j) (b)
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures[C09] def: b == (c(s)[i].Hits > c(s)[j].Hits || c(s)[i].Hits == c(s)[j].Hits && strlt(c(s)[i].Document.Name, c(s)[j].Document.Name))
  frame[C09]

func SearchResults.Swap(s, i, j) ()
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies c(s)
  ensures[C09] swapped: c(s)[i] == old(c(s)[j]) && c(s)[j] == old(c(s)[i])
  ensures[C09] others: forall(k, Int, imp(0 <= k && k < len(s) && k != i && k != j, c(s)[k] == old(c(s)[k])))
  frame[C09]

func SearchResults.Len(s) (n)
  ensures[C09] n: n == len(s)
  frame[C09]

// ---- C10 ----
func NoopZeroSearch(tokens, indexable) (r)
  ensures[C10] none: len(r) == 0
  ensures[C06] own: fresh(r)
  frame[C06, C10]

func NoopAllSearch(tokens, indexable) (r)
  requires indexable != nil
  let N = ilen(indexable)
  ensures[C10] count: len(r) == N
  ensures[C10] all: forall(i, Int, imp(0 <= i && i < N, c(r)[i] == mk(SearchResult, idoc(indexable, i), 0)))
  ensures[C06] own: fresh(r)
  frame[C06, C10]
  inv filled(R any []SearchResult, I pos): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == mk(SearchResult, idoc(indexable, i), 0)))
  inv blank(R any []SearchResult, I pos): forall(i, Int, imp(I <= i && i < N, c(R)[i].Hits == 0))
  inv count(R phi []SearchResult, I idx): len(R) == I
  inv all(R any []SearchResult, I idx): forall(i, Int, imp(0 <= i && i < I, c(R)[i] == mk(SearchResult, idoc(indexable, i), 0)))
