// ---- the repository ----
// the names in A[0..n)
rec nset(A Arr[Int,Str], n Int) Arr[Str,Bool] on n: emptyset(Str); store(nset(A, n-1), A[n-1], true)
lemma nset_in(A Arr[Int,Str], n Int, i Int) induct n pat(nset(A, n), A[i]): imp(0 <= i && i < n, in(A[i], nset(A, n)))
rec npos(A Arr[Int,Str], n Int, k Str) Int on n: -1; ite(A[n-1] == k, n-1, npos(A, n-1, k))
lemma nset_pos(A Arr[Int,Str], n Int, k Str) induct n pat(in(k, nset(A, n))):
      imp(in(k, nset(A, n)), 0 <= npos(A, n, k) && npos(A, n, k) < n && A[npos(A, n, k)] == k)
lemma nset_same(A Arr[Int,Str], B Arr[Int,Str], n Int) induct n pat(nset(A, n), nset(B, n)): imp(forall(i, Int, pat(A[i]), pat(B[i]), imp(0 <= i && i < n, A[i] == B[i])), nset(A, n) == nset(B, n))
lemma nset_store(A Arr[Int,Str], m Int, w Str, n Int) induct n pat(nset(store(A, m, w), n)): imp(m >= n, nset(store(A, m, w), n) == nset(A, n))
lemma npos_same(A Arr[Int,Str], B Arr[Int,Str], n Int, k Str) induct n pat(npos(A, n, k), npos(B, n, k)): imp(forall(i, Int, pat(A[i]), pat(B[i]), imp(0 <= i && i < n, A[i] == B[i])), npos(A, n, k) == npos(B, n, k))
lemma npos_store(A Arr[Int,Str], m Int, w Str, n Int, k Str) induct n pat(npos(store(A, m, w), n, k)): imp(m >= n, npos(store(A, m, w), n, k) == npos(A, n, k))
lemma npos_at(A Arr[Int,Str], n Int, i Int) induct n pat(npos(A, n, A[i])): imp(0 <= i && i < n, i <= npos(A, n, A[i]) && npos(A, n, A[i]) < n && A[npos(A, n, A[i])] == A[i])
lemma npos_app(A Arr[Int,Str], m Int, w Str, n Int, k Str) pat(npos(store(A, m, w), n, k)): imp(m >= 0 && n == m+1, npos(store(A, m, w), n, k) == ite(w == k, m, npos(A, m, k)))
// the objects V maps the names A[0..n) to
rec vset(A Arr[Int,Str], V Arr[Str,Int], n Int) Arr[Int,Bool] on n: emptyset(Int); store(vset(A, V, n-1), V[A[n-1]], true)
rec vpos(A Arr[Int,Str], V Arr[Str,Int], n Int, r Int) Int on n: -1; ite(V[A[n-1]] == r, n-1, vpos(A, V, n-1, r))
lemma vset_pos(A Arr[Int,Str], V Arr[Str,Int], n Int, r Int) induct n pat(in(r, vset(A, V, n))):
      imp(in(r, vset(A, V, n)), 0 <= vpos(A, V, n, r) && vpos(A, V, n, r) < n && V[A[vpos(A, V, n, r)]] == r)

// ---- what lies behind the Index interface ----
// The state of every index, what storing does to it, and what searching finds.
sort Ix
ghost ixs Arr[Int,Ix]
ghost _tw Arr[Int,Bool]
ghost _tr Arr[Int,Bool]
fun newix(name Str) Ix
fun putix(s Ix, d DocRequest) Ix
fun fnd(s Ix, terms Str, e Ref) Arr[Int,SearchResult]
fun fndn(s Ix, terms Str, e Ref) Int

iface Index.Put(ix, doc) (r)
  opt object write ixs
  modifies ixs[ix]
  ensures put: ixs[ix] == putix(old(ixs[ix]), doc)
  ensures self: r == ix

iface Index.Search(ix, terms, engine) (r)
  opt object read ixs
  ensures len: len(r) == fndn(ixs[ix], terms, engine)
  ensures at: forall(i, Int, imp(0 <= i && i < len(r), c(r)[i] == fnd(ixs[ix], terms, engine)[i]))
  ensures own: fresh(r)

functype Builder(b, name) (r)
  ensures new: r != nil && ref(r) >= A0() && allocated(r) && ixs[ref(r)] == newix(name)

protocol IndexRepo
  order indicesMu, aliasesMu
  guards indicesMu: indices, ghost:ixs
  guards aliasesMu: aliases, slice:string

// ---- the invariant ----
macro ISx(h) = forall(k, Str, imp(in(k, h.indices), h.indices[k] != nil && h.indices[k] > 0 && allocated(h.indices[k])))
      && forall(k, Str, l, Str, imp(in(k, h.indices) && in(l, h.indices) && h.indices[k] == h.indices[l], k == l))
macro ALx(h) = forall(a, Str, imp(in(a, h.aliases), ref(h.aliases[a]) > 0 && len(h.aliases[a]) >= 1 && len(h.aliases[a]) <= cap(h.aliases[a]) && allocated(h.aliases[a])))
      && forall(a, Str, i, Int, imp(in(a, h.aliases) && 0 <= i && i < len(h.aliases[a]) && in(c(h.aliases[a])[i], nset(c(h.aliases[a]), len(h.aliases[a]))), in(c(h.aliases[a])[i], h.indices)))
      && forall(a, Str, i, Int, imp(in(a, h.aliases) && 0 <= i && i < len(h.aliases[a]), npos(c(h.aliases[a]), len(h.aliases[a]), c(h.aliases[a])[i]) == i))
      && forall(a, Str, b, Str, imp(in(a, h.aliases) && in(b, h.aliases) && a != b, ref(h.aliases[a]) != ref(h.aliases[b])))
macro J(h) = h != nil && h.indices != nil && h.aliases != nil && h.indexBuilder != nil && lockset(h) && ISx(h) && ALx(h)
// alias a points to index k
macro pt(h, a, k) = in(a, h.aliases) && in(k, nset(c(h.aliases[a]), len(h.aliases[a])))
macro sameix(h) = forall(k, Str, in(k, h.indices) == old(in(k, h.indices)) && imp(in(k, h.indices), h.indices[k] == old(h.indices[k])))
macro nodup(L) = forall(i, Int, imp(0 <= i && i < len(L), npos(c(L), len(L), c(L)[i]) == i))

func NewIndexRepo(builder) (h)
  requires builder != nil
  ensures[C23] J: J(h) && fresh(h.indices) && fresh(h.aliases) && ref(h) >= A0()
  ensures[C17] empty: forall(k, Str, !in(k, h.indices) && !in(k, h.aliases))
  ensures[C12] builder: h.indexBuilder == builder
  frame[C23]

func IndexRepo.Has(h, name) (r)
  requires J(h)
  ensures[C17] r: r == in(name, h.indices)
  frame[C17, C23]
  conc[C18, C19, C20]

func IndexRepo.HasAlias(h, name) (r)
  requires J(h)
  ensures[C17] r: r == in(name, h.aliases)
  frame[C17, C23]
  conc[C18, C19, C20]

func IndexRepo.List(h) (r)
  requires J(h)
  ensures[C17] names: forall(k, Str, in(k, nset(c(r), len(r))) == in(k, h.indices))
  ensures[C17] once: nodup(r)
  ensures[C17] own: fresh(r)
  frame[C17, C23]
  conc[C18, C19, C20]
  inv names(R any []string, V it map[string]Index, I idx): forall(k, Str, in(k, nset(c(R), I)) == in(k, V))
  inv once(R any []string, I idx): forall(i, Int, imp(0 <= i && i < I, npos(c(R), I, c(R)[i]) == i))
  inv lenis(R any []string, I idx): len(R) == I
  inv count(I phi int, J idx): I == J

func IndexRepo.Alias(h, alias, index) (r)
  requires J(h)
  modifies entries(h.aliases), slices(string, r, exists(a, Str, in(a, h.aliases) && ref(h.aliases[a]) == r))
  ensures[C14] reports: r == (old(in(index, h.indices)) && !old(pt(h, alias, index)))
  ensures[C14] aliases: forall(a, Str, in(a, h.aliases) == (old(in(a, h.aliases)) || r && a == alias))
  ensures[C14] assoc: forall(a, Str, k, Str, pt(h, a, k) == (old(pt(h, a, k)) || r && a == alias && k == index))
  ensures[C14] indices: sameix(h)
  ensures[C23] J: J(h)
  frame[C14, C23]
  conc[C18, C19, C20]
  inv notyet(L any []string, I pos): forall(i, Int, imp(0 <= i && i < I, c(L)[i] != index))

// an alias left without indexes goes

func IndexRepo.UnAlias(h, alias, index) (r)
  requires J(h)
  modifies entries(h.aliases), slices(string, r, exists(a, Str, in(a, h.aliases) && ref(h.aliases[a]) == r))
  let whole = len(index) == 0
  ensures[C14] reports: r == (old(in(alias, h.aliases)) && (whole || old(in(index, h.indices))))
  ensures[C14] assoc: forall(a, Str, k, Str, pt(h, a, k) == (old(pt(h, a, k)) && !(a == alias && (whole || k == index))))
  ensures[C14] indices: sameix(h)
  ensures[C14] other: forall(a, Str, imp(a != alias, in(a, h.aliases) == old(in(a, h.aliases))))
  ensures[C23] J: J(h)
  frame[C14, C23]
  conc[C18, C19, C20]
  inv rest(L any []string, R phi []string, I idx): forall(k, Str, in(k, nset(c(R), len(R))) == (in(k, nset(c(L), I)) && k != index))
  inv notyet(L any []string, I pos): forall(i, Int, imp(0 <= i && i < I, c(L)[i] != index))
  inv once(R phi []string): nodup(R)
  inv short(R phi []string, I idx): len(R) <= I
  inv all(L any []string, R phi []string, I idx): imp(len(R) == I, forall(i, Int, imp(0 <= i && i < I, c(R)[i] == c(L)[i])))

func IndexRepo.Drop(h, name) (r)
  requires J(h)
  modifies entries(h.aliases), entries(h.indices), slices(string, r, exists(a, Str, in(a, h.aliases) && ref(h.aliases[a]) == r))
  ensures[C16] reports: r == old(in(name, h.indices))
  ensures[C16] indices: forall(k, Str, in(k, h.indices) == (old(in(k, h.indices)) && k != name) && imp(in(k, h.indices), h.indices[k] == old(h.indices[k])))
  ensures[C16] assoc: forall(a, Str, k, Str, pt(h, a, k) == (old(pt(h, a, k)) && k != name))
  ensures[C16, C23] J: J(h)
  frame[C16, C23]
  conc[C18, C19, C20]
  inv rest(L any []string, R phi []string, I idx): forall(k, Str, in(k, nset(c(R), len(R))) == (in(k, nset(c(L), I)) && k != name))
  inv notyet(L any []string, I pos): forall(i, Int, imp(0 <= i && i < I, c(L)[i] != name))
  inv once(R phi []string): nodup(R)
  inv inplace(L any []string, R phi []string, I pos): forall(k, Str, in(k, nset(c(R), len(R))) == (in(k, nset(entry(c(L)), I)) && k != name))
  inv inplacen(L any []string, W phi int, I pos): forall(k, Str, in(k, nset(c(L), W)) == (in(k, nset(entry(c(L)), I)) && k != name))
  inv oncew(L any []string, W phi int): forall(i, Int, imp(0 <= i && i < W, npos(c(L), W, c(L)[i]) == i))
  inv tail(L any []string, I pos): forall(i, Int, imp(I <= i && i < len(L), c(L)[i] == entry(c(L))[i]))
  inv sameobj(L any []string, R phi []string): ref(R) == ref(L) && cap(R) == cap(L)
  inv short(R phi []string, I idx): len(R) <= I
  inv all(L any []string, R phi []string, I idx): imp(len(R) == I, forall(i, Int, imp(0 <= i && i < I, c(R)[i] == c(L)[i])))
  inv fewer(V it map[string][]string): forall(a, Str, imp(in(a, h.aliases), old(in(a, h.aliases))))
  inv todo(V it map[string][]string): forall(a, Str, imp(old(in(a, h.aliases)) && !in(a, V), in(a, h.aliases) && h.aliases[a] == old(h.aliases[a])))
  inv todosame(V it map[string][]string): forall(a, Str, i, Int, imp(old(in(a, h.aliases)) && !in(a, V) && 0 <= i && i < old(len(h.aliases[a])), c(h.aliases[a])[i] == old(c(h.aliases[a])[i])))
  inv gone(V it map[string][]string): forall(a, Str, k, Str, imp(in(a, V) && !in(a, h.aliases) && old(in(k, nset(c(h.aliases[a]), len(h.aliases[a])))), k == name))
  inv done(V it map[string][]string): forall(a, Str, k, Str, imp(in(a, V) && in(a, h.aliases), in(k, nset(c(h.aliases[a]), len(h.aliases[a]))) == (k != name && old(in(k, nset(c(h.aliases[a]), len(h.aliases[a])))))))
  inv wf(V it map[string][]string): forall(a, Str, imp(in(a, h.aliases), ref(h.aliases[a]) > 0 && len(h.aliases[a]) >= 1 && len(h.aliases[a]) <= cap(h.aliases[a]) && allocated(h.aliases[a])))
  inv wfonce(V it map[string][]string): forall(a, Str, i, Int, imp(in(a, h.aliases) && 0 <= i && i < len(h.aliases[a]), npos(c(h.aliases[a]), len(h.aliases[a]), c(h.aliases[a])[i]) == i))
  inv wfdisj(V it map[string][]string): forall(a, Str, b, Str, imp(in(a, h.aliases) && in(b, h.aliases) && a != b, ref(h.aliases[a]) != ref(h.aliases[b])))
  inv wfx(V it map[string][]string): forall(a, Str, imp(in(a, h.aliases), ref(h.aliases[a]) >= A0() || ref(h.aliases[a]) == old(ref(h.aliases[a]))))

func IndexRepo.Rename(h, old_, new_) (r)
  requires J(h)
  modifies entries(h.aliases), entries(h.indices), slices(string, r, exists(a, Str, in(a, h.aliases) && ref(h.aliases[a]) == r))
  ensures[C15] reports: r == old(in(old_, h.indices))
  ensures[C15] names: forall(k, Str, in(k, h.indices) == ite(r && k == new_, true, old(in(k, h.indices)) && !(r && k == old_)))
  ensures[C15] moved: imp(r, h.indices[new_] == old(h.indices[old_]))
  ensures[C15] others: forall(k, Str, imp(in(k, h.indices) && !(r && k == new_), h.indices[k] == old(h.indices[k])))
  ensures[C15] aliases: forall(a, Str, in(a, h.aliases) == old(in(a, h.aliases)))
  ensures[C15] assoc: forall(a, Str, k, Str, pt(h, a, k) == ite(r && k == new_, old(pt(h, a, new_)) || old(pt(h, a, old_)), old(pt(h, a, k)) && !(r && k == old_)))
  ensures[C23] J: J(h)
  frame[C15, C23]
  conc[C18, C19, C20]
  inv rest(L any []string, R phi []string, I idx): forall(k, Str, in(k, nset(c(R), len(R))) == ite(k == new_, in(new_, nset(c(L), I)) || in(old_, nset(c(L), I)), in(k, nset(c(L), I)) && k != old_))
  inv once(R phi []string): nodup(R)
  inv met(R phi []string, b phi bool): b == in(new_, nset(c(R), len(R)))
  inv some(R phi []string, I idx): imp(I > 0, len(R) > 0)
  inv keys(V it map[string][]string): forall(a, Str, in(a, h.aliases) == old(in(a, h.aliases)))
  inv todo(V it map[string][]string): forall(a, Str, imp(old(in(a, h.aliases)) && !in(a, V), in(a, h.aliases) && h.aliases[a] == old(h.aliases[a])))
  inv done(V it map[string][]string): forall(a, Str, k, Str, imp(in(a, V), in(k, nset(c(h.aliases[a]), len(h.aliases[a]))) == ite(k == new_, old(in(new_, nset(c(h.aliases[a]), len(h.aliases[a])))) || old(in(old_, nset(c(h.aliases[a]), len(h.aliases[a])))), k != old_ && old(in(k, nset(c(h.aliases[a]), len(h.aliases[a])))))))
  inv wf(V it map[string][]string): forall(a, Str, imp(in(a, h.aliases), ref(h.aliases[a]) > 0 && len(h.aliases[a]) >= 1 && len(h.aliases[a]) <= cap(h.aliases[a]) && allocated(h.aliases[a])))
  inv wfonce(V it map[string][]string): forall(a, Str, i, Int, imp(in(a, h.aliases) && 0 <= i && i < len(h.aliases[a]), npos(c(h.aliases[a]), len(h.aliases[a]), c(h.aliases[a])[i]) == i))
  inv wfdisj(V it map[string][]string): forall(a, Str, b, Str, imp(in(a, h.aliases) && in(b, h.aliases) && a != b, ref(h.aliases[a]) != ref(h.aliases[b])))
  inv wfx(V it map[string][]string): forall(a, Str, imp(in(a, h.aliases), ref(h.aliases[a]) >= A0() || ref(h.aliases[a]) == old(ref(h.aliases[a]))))

rec rowset(A Arr[Int,AliasesResultRow], n Int) Arr[Str,Bool] on n: emptyset(Str); store(rowset(A, n-1), A[n-1].Alias, true)
rec rowpos(A Arr[Int,AliasesResultRow], n Int, k Str) Int on n: -1; ite(A[n-1].Alias == k, n-1, rowpos(A, n-1, k))
lemma rowset_in(A Arr[Int,AliasesResultRow], n Int, i Int) induct n pat(rowset(A, n), A[i]): imp(0 <= i && i < n, in(A[i].Alias, rowset(A, n)))
lemma rowset_pos(A Arr[Int,AliasesResultRow], n Int, k Str) induct n pat(in(k, rowset(A, n))):
      imp(in(k, rowset(A, n)), 0 <= rowpos(A, n, k) && rowpos(A, n, k) < n && A[rowpos(A, n, k)].Alias == k)
lemma rowset_store(A Arr[Int,AliasesResultRow], m Int, w AliasesResultRow, n Int) induct n pat(rowset(store(A, m, w), n)): imp(m >= n, rowset(store(A, m, w), n) == rowset(A, n))
lemma rowpos_store(A Arr[Int,AliasesResultRow], m Int, w AliasesResultRow, n Int, k Str) induct n pat(rowpos(store(A, m, w), n, k)): imp(m >= n, rowpos(store(A, m, w), n, k) == rowpos(A, n, k))
lemma rowset_app(A Arr[Int,AliasesResultRow], m Int, w AliasesResultRow, n Int) pat(rowset(store(A, m, w), n)): imp(m >= 0 && n == m+1, rowset(store(A, m, w), n) == store(rowset(A, m), w.Alias, true))
lemma rowpos_app(A Arr[Int,AliasesResultRow], m Int, w AliasesResultRow, n Int, k Str) pat(rowpos(store(A, m, w), n, k)): imp(m >= 0 && n == m+1, rowpos(store(A, m, w), n, k) == ite(w.Alias == k, m, rowpos(A, m, k)))
macro rowok(h, R, n) = forall(i, Int, imp(0 <= i && i < n, in(c(R)[i].Alias, h.aliases) && nset(c(c(R)[i].Indices), len(c(R)[i].Indices)) == nset(c(h.aliases[c(R)[i].Alias]), len(h.aliases[c(R)[i].Alias]))))

func IndexRepo.ListAliases(h) (r)
  requires J(h)
  ensures[C17] aliases: forall(a, Str, in(a, rowset(c(r.Aliases), len(r.Aliases))) == in(a, h.aliases))
  ensures[C17] once: forall(i, Int, imp(0 <= i && i < len(r.Aliases), rowpos(c(r.Aliases), len(r.Aliases), c(r.Aliases)[i].Alias) == i))
  ensures[C17] lists: rowok(h, r.Aliases, len(r.Aliases))
  ensures[C17] names: forall(i, Int, j, Int, imp(0 <= i && i < len(r.Aliases) && 0 <= j && j < len(c(r.Aliases)[i].Indices), npos(c(c(r.Aliases)[i].Indices), len(c(r.Aliases)[i].Indices), c(c(r.Aliases)[i].Indices)[j]) == j))
  ensures[C17] own: (len(r.Aliases) == 0 || fresh(r.Aliases)) && forall(i, Int, imp(0 <= i && i < len(r.Aliases), ref(c(r.Aliases)[i].Indices) == 0 || ref(c(r.Aliases)[i].Indices) >= A0()))
  ensures[C17] apart: forall(i, Int, j, Int, imp(0 <= i && i < j && j < len(r.Aliases), ref(c(r.Aliases)[i].Indices) == 0 || ref(c(r.Aliases)[i].Indices) != ref(c(r.Aliases)[j].Indices)))
  frame[C17, C23]
  conc[C18, C19, C20]
  inv aliases(R any []AliasesResultRow, V it map[string][]string, I idx): forall(a, Str, in(a, rowset(c(R), I)) == in(a, V))
  inv once(R any []AliasesResultRow, I idx): forall(i, Int, imp(0 <= i && i < I, rowpos(c(R), I, c(R)[i].Alias) == i))
  inv lists(R any []AliasesResultRow, I idx): rowok(h, R, I)
  inv names(R any []AliasesResultRow, I idx): forall(i, Int, j, Int, imp(0 <= i && i < I && 0 <= j && j < len(c(R)[i].Indices), npos(c(c(R)[i].Indices), len(c(R)[i].Indices), c(c(R)[i].Indices)[j]) == j))
  inv own(R any []AliasesResultRow, I idx): forall(i, Int, imp(0 <= i && i < I, ref(c(R)[i].Indices) == 0 || ref(c(R)[i].Indices) >= A0() && allocated(c(R)[i].Indices)))
  inv apart(R any []AliasesResultRow, I idx): forall(i, Int, j, Int, imp(0 <= i && i < j && j < I, ref(c(R)[i].Indices) == 0 || ref(c(R)[i].Indices) != ref(c(R)[j].Indices)))
  inv lenis(R any []AliasesResultRow, I idx): len(R) == I
  inv count(I phi int, J idx): I == J

// the objects L[0..n)
lemma osame(A Arr[Int,Str], V Arr[Str,Int], L Arr[Int,Int], n Int) induct n pat(aset(L, n), vset(A, V, n)): imp(forall(i, Int, pat(L[i]), pat(A[i]), imp(0 <= i && i < n, L[i] == V[A[i]])), aset(L, n) == vset(A, V, n))
lemma vset_in(A Arr[Int,Str], V Arr[Str,Int], n Int, i Int) induct n pat(vset(A, V, n), A[i]): imp(0 <= i && i < n, in(V[A[i]], vset(A, V, n)))

func IndexRepo.Put(h, indexName, doc)
  requires J(h)
  modifies entries(h.indices), ixs
  let direct = in(indexName, h.indices)
  let alias = !in(indexName, h.indices) && in(indexName, h.aliases)
  let made = !in(indexName, h.indices) && !in(indexName, h.aliases)
  ensures[C12] indices: forall(k, Str, in(k, h.indices) == (old(in(k, h.indices)) || made && k == indexName))
  ensures[C12] kept: forall(k, Str, imp(old(in(k, h.indices)), h.indices[k] == old(h.indices[k])))
  ensures[C12] stored: forall(k, Str, imp(old(in(k, h.indices)), ixs[h.indices[k]] == ite(direct && k == indexName || alias && old(pt(h, indexName, k)), putix(old(ixs)[h.indices[k]], doc), old(ixs)[h.indices[k]])))
  ensures[C12] made: imp(made, ref(h.indices[indexName]) >= A0() && ixs[h.indices[indexName]] == putix(newix(indexName), doc))
  ensures[C23] J: J(h)
  frame[C12, C23]
  conc[C18, C19, C20]
  inv find(L any []Index, N any []string, I idx): forall(i, Int, imp(0 <= i && i < I, c(L)[i] == h.indices[c(N)[i]]))
  inv put(L any []Index, I idx): forall(r, Int, ixs[r] == ite(in(r, aset(c(L), I)), putix(old(ixs)[r], doc), old(ixs)[r]))
  inv tasks(L any []Index, I idx): forall(r, Int, imp(in(r, _tw), in(r, aset(c(L), I))))

// how often v is among the results of the indexes A[0..n) names, of the objects L[0..n)
rec osum(A Arr[Int,Str], V Arr[Str,Int], n Int, S Arr[Int,Ix], t Str, e Ref, v SearchResult) Int on n: 0; osum(A, V, n-1, S, t, e, v) + occ(fnd(S[V[A[n-1]]], t, e), fndn(S[V[A[n-1]]], t, e), v)
rec lsum(L Arr[Int,Int], n Int, S Arr[Int,Ix], t Str, e Ref, v SearchResult) Int on n: 0; lsum(L, n-1, S, t, e, v) + occ(fnd(S[L[n-1]], t, e), fndn(S[L[n-1]], t, e), v)
lemma lsum_osum(A Arr[Int,Str], V Arr[Str,Int], L Arr[Int,Int], n Int, S Arr[Int,Ix], t Str, e Ref, v SearchResult) induct n pat(lsum(L, n, S, t, e, v), osum(A, V, n, S, t, e, v)):
      imp(forall(i, Int, pat(L[i]), pat(A[i]), imp(0 <= i && i < n, L[i] == V[A[i]])), lsum(L, n, S, t, e, v) == osum(A, V, n, S, t, e, v))
lemma osum_zero(A Arr[Int,Str], V Arr[Str,Int], n Int, S Arr[Int,Ix], t Str, e Ref, v SearchResult) pat(osum(A, V, n, S, t, e, v)): imp(n <= 0, osum(A, V, n, S, t, e, v) == 0)
lemma osum_one(A Arr[Int,Str], V Arr[Str,Int], n Int, S Arr[Int,Ix], t Str, e Ref, v SearchResult) pat(osum(A, V, n, S, t, e, v)):
      imp(n == 1, osum(A, V, n, S, t, e, v) == occ(fnd(S[V[A[0]]], t, e), fndn(S[V[A[0]]], t, e), v))

func IndexRepo.Search(h, indexName, terms, engine) (r, err)
  requires J(h)
  let direct = in(indexName, h.indices)
  let alias = !in(indexName, h.indices) && in(indexName, h.aliases)
  let L = h.aliases[indexName]
  let o = h.indices[indexName]
  ensures[C13] error: (err != nil) == (!direct && !alias)
  ensures[C13] errnil: imp(err != nil, r == nil)
  ensures[C13] start: imp(err == nil, r != nil && streamnew(r))
  ensures[C13] direct: imp(direct, len(stream(r)) == fndn(ixs[o], terms, engine) && forall(i, Int, imp(0 <= i && i < len(stream(r)), c(stream(r))[i] == fnd(ixs[o], terms, engine)[i])))
  ensures[C13] alias: imp(alias, forall(v, SearchResult, occ(c(stream(r)), len(stream(r)), v) == osum(c(L), vals(h.indices), len(L), ixs, terms, engine, v)))
  frame[C06, C13, C23]
  conc[C18, C19, C20]
  inv find(L any []Index, N any []string, I idx): forall(i, Int, imp(0 <= i && i < I, c(L)[i] == h.indices[c(N)[i]]))
  inv slots(P any [][]SearchResult, L any []Index, I idx): forall(i, Int, imp(0 <= i && i < I, allocated(c(P)[i]) && len(c(P)[i]) == fndn(ixs[c(L)[i]], terms, engine) && forall(j, Int, imp(0 <= j && j < len(c(P)[i]), c(c(P)[i])[j] == fnd(ixs[c(L)[i]], terms, engine)[j]))))
  inv sum(L any []Index, R phi []SearchResult, I idx): forall(v, SearchResult, occ(c(R), len(R), v) == lsum(c(L), I, ixs, terms, engine, v))
  inv added(R phi []SearchResult, Q any []SearchResult, I pos): forall(v, SearchResult, occ(c(R), len(R), v) == entry(occ(c(R), len(R), v)) + occ(c(Q), I, v))
  inv only(L any []Index, R phi []SearchResult, I idx): imp(I == 0, len(R) == 0) && imp(I == 1, len(R) == fndn(ixs[c(L)[0]], terms, engine) && forall(i, Int, imp(0 <= i && i < len(R), c(R)[i] == fnd(ixs[c(L)[0]], terms, engine)[i])))

func IndexRepo.String(h) (r)
  requires J(h)
  frame[C06, C23]
  conc[C18, C19, C20]
