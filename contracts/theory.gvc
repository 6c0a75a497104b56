// Mathematical vocabulary.

// ---- finite sequences of strings ----
// sq(A,n) is the sequence A[0..n); sequences with the same elements are equal.
sort SqS
fun sq(A Arr[Int,Str], n Int) SqS
fun qlen(S SqS) Int
fun qat(S SqS, i Int) Str
fun qdiff(S SqS, T SqS) Int
axiom sq_len(A Arr[Int,Str], n Int) pat(sq(A, n)): imp(n >= 0, qlen(sq(A, n)) == n)
axiom sq_at(A Arr[Int,Str], n Int, i Int) pat(qat(sq(A, n), i)) pat(sq(A, n), A[i]): imp(0 <= i && i < n, qat(sq(A, n), i) == A[i])
axiom sq_pos(S SqS) pat(qlen(S)): qlen(S) >= 0
axiom sq_ext(A Arr[Int,Str], n Int, B Arr[Int,Str]) pat(sq(A, n), sq(B, n)):
      imp(imp(0 <= qdiff(sq(A, n), sq(B, n)) && qdiff(sq(A, n), sq(B, n)) < n, A[qdiff(sq(A, n), sq(B, n))] == B[qdiff(sq(A, n), sq(B, n))]), sq(A, n) == sq(B, n))

// ---- filtering ----
// length and contents of the subsequence of A[0..n) not in D
rec fl[E](A Arr[Int,E], n Int, D Arr[E,Bool]) Int on n: 0; ite(in(A[n-1], D), fl(A, n-1, D), fl(A, n-1, D) + 1)
rec fa[E](A Arr[Int,E], n Int, D Arr[E,Bool]) Arr[Int,E] on n: A; ite(in(A[n-1], D), fa(A, n-1, D), store(fa(A, n-1, D), fl(A, n-1, D), A[n-1]))
lemma fl_bounds[E](A Arr[Int,E], n Int, D Arr[E,Bool]) induct n pat(fl(A, n, D)): 0 <= fl(A, n, D) && imp(n >= 0, fl(A, n, D) <= n)

// ---- strings ----
fun strlen(s Str) Int
axiom strlen_empty(s Str) pat(strlen(s)): strlen(s) >= 0 && (strlen(s) == 0) == (s == "")

// ---- library functions ----
fun tolower(s Str) Str
fun stem(s Str, b Bool) Str
fun isletter(r Int) Bool
fun isnumber(r Int) Bool
// the maximal runs of characters in K
fun ff(s Str, K Arr[Int,Bool]) SqS

// ---- what the interfaces' implementations compute ----
// a tokenizer, and a filter, may keep state: T is the history of stage calls so far
fun tapply(t Ref, s Str, T Int) SqS
fun fapply(f Ref, S SqS, T Int) SqS
fun tstep(t Ref, s Str, T Int) Int
fun fstep(f Ref, S SqS, T Int) Int
// the sequence, and the history, after filters F[0..n)
rec foldt(F Arr[Int,Int], n Int, S SqS, T Int) Int on n: T; fstep(F[n-1], folds(F, n-1, S, T), foldt(F, n-1, S, T))
rec folds(F Arr[Int,Int], n Int, S SqS, T Int) SqS on n: S; fapply(F[n-1], folds(F, n-1, S, T), foldt(F, n-1, S, T))

// keep rules: F[0..n) accept r
fun accepts(f Ref, r Int) Bool
rec kept(F Arr[Int,Int], n Int, r Int) Bool on n: false; kept(F, n-1, r) || accepts(F[n-1], r)
fun keptset(F Arr[Int,Int], n Int) Arr[Int,Bool]
axiom keptset_def(F Arr[Int,Int], n Int, r Int) pat(in(r, keptset(F, n))): in(r, keptset(F, n)) == kept(F, n, r)
lemma kept_at(F Arr[Int,Int], n Int, r Int, i Int) induct n pat(kept(F, n, r), accepts(F[i], r)): imp(0 <= i && i < n && accepts(F[i], r), kept(F, n, r))
lemma kept_none(F Arr[Int,Int], n Int, r Int) pat(kept(F, n, r)): imp(n <= 0, !kept(F, n, r))

// ---- sets of tokens and of positions ----
// the distinct elements of S[0..n)
rec sset(S SqS, n Int) Arr[Str,Bool] on n: emptyset(Str); store(sset(S, n-1), qat(S, n-1), true)
lemma sset_in(S SqS, n Int, i Int) induct n pat(sset(S, n), qat(S, i)): imp(0 <= i && i < n, in(qat(S, i), sset(S, n)))
// the last position below n at which k occurs
rec spos(S SqS, n Int, k Str) Int on n: -1; ite(qat(S, n-1) == k, n-1, spos(S, n-1, k))
lemma sset_pos(S SqS, n Int, k Str) induct n pat(in(k, sset(S, n))):
      imp(in(k, sset(S, n)), 0 <= spos(S, n, k) && spos(S, n, k) < n && qat(S, spos(S, n, k)) == k)
// the elements of A[0..n)
rec aset(A Arr[Int,Int], n Int) Arr[Int,Bool] on n: emptyset(Int); store(aset(A, n-1), A[n-1], true)
lemma aset_in(A Arr[Int,Int], n Int, i Int) induct n pat(aset(A, n), A[i]): imp(0 <= i && i < n, in(A[i], aset(A, n)))
rec apos(A Arr[Int,Int], n Int, k Int) Int on n: -1; ite(A[n-1] == k, n-1, apos(A, n-1, k))
lemma aset_pos(A Arr[Int,Int], n Int, k Int) induct n pat(in(k, aset(A, n))):
      imp(in(k, aset(A, n)), 0 <= apos(A, n, k) && apos(A, n, k) < n && A[apos(A, n, k)] == k)
lemma aset_same(A Arr[Int,Int], B Arr[Int,Int], n Int) pat(aset(A, n), aset(B, n)): imp(forall(i, Int, pat(A[i]), pat(B[i]), imp(0 <= i && i < n, A[i] == B[i])), aset(A, n) == aset(B, n))

// ---- counting ----
// how many of 0..n-1 are in P
rec cnt(P Arr[Int,Bool], n Int) Int on n: 0; cnt(P, n-1) + ite(in(n-1, P), 1, 0)
lemma cnt_bounds(P Arr[Int,Bool], n Int) induct n pat(cnt(P, n)): 0 <= cnt(P, n) && imp(n >= 0, cnt(P, n) <= n)
lemma cnt_above(P Arr[Int,Bool], x Int, n Int) induct n pat(cnt(store(P, x, true), n)): imp(x >= n, cnt(store(P, x, true), n) == cnt(P, n))
lemma cnt_add(P Arr[Int,Bool], x Int, n Int) induct n pat(cnt(store(P, x, true), n)): imp(!in(x, P) && 0 <= x && x < n, cnt(store(P, x, true), n) == cnt(P, n) + 1)
lemma cnt_none(P Arr[Int,Bool], n Int) induct n pat(cnt(P, n)): imp(forall(i, Int, pat(in(i, P)), imp(0 <= i && i < n, !in(i, P))), cnt(P, n) == 0)
// an increasing list: every element's rank is its position
lemma cnt_all(A Arr[Int,Int], n Int, m Int) induct n pat(cnt(aset(A, n), m)):
      imp(n >= 0 && forall(i, Int, imp(0 <= i && i < n, 0 <= A[i] && A[i] < m)) && forall(i, Int, j, Int, imp(0 <= i && i < j && j < n, A[i] < A[j])), cnt(aset(A, n), m) == n)
lemma cnt_rank(A Arr[Int,Int], n Int, j Int) induct n pat(cnt(aset(A, n), A[j])):
      imp(0 <= j && j < n && forall(i, Int, imp(0 <= i && i < n, 0 <= A[i])) && forall(i, Int, k, Int, imp(0 <= i && i < k && k < n, A[i] < A[k])), cnt(aset(A, n), A[j]) == j)
// how often v occurs in A[0..n)
rec occ[E](A Arr[Int,E], n Int, v E) Int on n: 0; occ(A, n-1, v) + ite(A[n-1] == v, 1, 0)
lemma occ_bounds[E](A Arr[Int,E], n Int, v E) induct n pat(occ(A, n, v)): 0 <= occ(A, n, v)
lemma occ_same[E](A Arr[Int,E], B Arr[Int,E], n Int, v E) induct n pat(occ(A, n, v), occ(B, n, v)): imp(forall(i, Int, pat(A[i]), pat(B[i]), imp(0 <= i && i < n, A[i] == B[i])), occ(A, n, v) == occ(B, n, v))
lemma occ_store[E](A Arr[Int,E], n Int, m Int, w E, v E) induct n pat(occ(store(A, m, w), n, v)): imp(m >= n, occ(store(A, m, w), n, v) == occ(A, n, v))


// ---- joining ----
// A with B[0..m) in the places n..n+m-1
fun appd[E](A Arr[Int,E], n Int, B Arr[Int,E], m Int) Arr[Int,E]
axiom appd_at[E](A Arr[Int,E], n Int, B Arr[Int,E], m Int, i Int) pat(appd(A, n, B, m)[i]): appd(A, n, B, m)[i] == ite(n <= i && i < n+m, B[i-n], A[i])
lemma occ_appd_low[E](A Arr[Int,E], n Int, B Arr[Int,E], m Int, k Int, v E) induct k pat(occ(appd(A, n, B, m), k, v)): imp(k <= n, occ(appd(A, n, B, m), k, v) == occ(A, k, v))
lemma occ_appd_part[E](A Arr[Int,E], n Int, B Arr[Int,E], m Int, k Int, v E) induct k: imp(n >= 0 && n <= k && k <= n+m, occ(appd(A, n, B, m), k, v) == occ(A, n, v) + occ(B, k-n, v))
lemma occ_appd[E](A Arr[Int,E], n Int, B Arr[Int,E], m Int, k Int, v E) pat(occ(appd(A, n, B, m), k, v)): imp(n >= 0 && m >= 0 && k == n+m, occ(appd(A, n, B, m), k, v) == occ(A, n, v) + occ(B, m, v))

// ---- the order of strings ----
fun strlt(a Str, b Str) Bool
axiom strlt_total(a Str, b Str) pat(strlt(a, b)): !(strlt(a, b) && strlt(b, a)) && (strlt(a, b) || strlt(b, a) || a == b) && imp(a == b, !strlt(a, b))
axiom strlt_trans(a Str, b Str, c Str) pat(strlt(a, b), strlt(b, c)): imp(strlt(a, b) && strlt(b, c), strlt(a, c))
