// ---- the characters of a UTF-8 byte string ----
fun str_of(A Arr[Int,Int], o Int, n Int) Str
fun rcount(s Str) Int
fun rpos(s Str, i Int) Int
fun rval(s Str, i Int) Int
axiom rpos_range(s Str, i Int) pat(rpos(s, i)): imp(0 <= i && i < rcount(s), 0 <= rpos(s, i) && rpos(s, i) < strlen(s))
axiom strlen_of(A Arr[Int,Int], o Int, n Int) pat(str_of(A, o, n)): imp(n >= 0, strlen(str_of(A, o, n)) == n && rcount(str_of(A, o, n)) <= n && 0 <= rcount(str_of(A, o, n)))
// the character that starts at byte p (decoding from there yields the remaining characters)
fun bnd(s Str, p Int) Int
axiom bnd_def(s Str, i Int) pat(rpos(s, i)): imp(0 <= i && i < rcount(s), bnd(s, rpos(s, i)) == i)

// ---- C22: Snowball regions ----
macro vow(r) = r == 'a' || r == 'e' || r == 'i' || r == 'o' || r == 'u' || r == 'á' || r == 'é' || r == 'í' || r == 'ó' || r == 'ú' || r == 'ü'
fun isv(r Int) Bool
axiom isv_def(r Int) pat(isv(r)): isv(r) == vow(r)
// where the region starts that follows the first non-vowel after a vowel, seen from character R-n with f: a vowel has been seen
rec rg(s Str, f Bool, n Int) Int on n: rcount(s); ite(f && !isv(rval(s, rcount(s) - n)), rcount(s) - n + 1, rg(s, f || isv(rval(s, rcount(s) - n)), n - 1))
// where the region starts that follows the first vowel (v) or non-vowel (!v), seen from character R-n
rec af(s Str, v Bool, n Int) Int on n: rcount(s); ite(isv(rval(s, rcount(s) - n)) == v, rcount(s) - n + 1, af(s, v, n - 1))
lemma rg_bounds(s Str, f Bool, n Int) induct n pat(rg(s, f, n)): imp(n >= 0, rcount(s) - n <= rg(s, f, n) && rg(s, f, n) <= rcount(s))
lemma af_bounds(s Str, v Bool, n Int) induct n pat(af(s, v, n)): imp(n >= 0, rcount(s) - n <= af(s, v, n) && af(s, v, n) <= rcount(s))

func R1R2RV(w) (r1, r2, rv)
  let s = str_of(c(w), 0, len(w))
  let R = rcount(s)
  let k1 = rg(s, false, R)
  let k2 = rg(s, false, R - k1)
  let kv = ite(R < 3, R, ite(!isv(rval(s, 1)), af(s, true, R - 2), ite(isv(rval(s, 0)), af(s, false, R - 2), 3)))
  ensures[C22] r1: len(r1) == ite(k1 < R, len(w) - rpos(s, k1), 0)
  ensures[C22] r1suffix: forall(i, Int, imp(0 <= i && i < len(r1), r1[i] == w[rpos(s, k1) + i]))
  ensures[C22] r2: len(r2) == ite(k2 < R, len(w) - rpos(s, k2), 0)
  ensures[C22] r2suffix: forall(i, Int, imp(0 <= i && i < len(r2), r2[i] == w[rpos(s, k2) + i]))
  ensures[C22] rv: len(rv) == ite(kv < R, len(w) - rpos(s, kv), 0)
  ensures[C22] rvsuffix: forall(i, Int, imp(0 <= i && i < len(rv), rv[i] == w[rpos(s, kv) + i]))
  frame[C22]
  inv slots(L phi, I idx): forall(i, Int, imp(0 <= i && i < I, L[i].Index == rpos(s, i) && L[i].Value == rval(s, i) && L[i].IsVowel == isv(rval(s, i))))
  inv count(L phi, I idx): len(L) == I
  inv r1(D phi bool, B phi bool, I idx): ite(D, k1 == I, k1 == rg(s, B, R - I))
  inv r1a(B phi bool, I idx): k1 == rg(s, B, R - I)
  inv r1b(B phi bool, I idx): ite(B, k1 == I, k1 == rg(s, true, R - I))
  inv r1c(I idx): k1 == rg(s, false, R - I)
  inv r1d(I idx): k1 == rg(s, true, R - I)
  inv r1e(I pos): imp(I >= 1, k1 == rg(s, isv(rval(s, I - 1)), R - I))
  inv r2(D phi bool, B phi bool, I idx): ite(D, k2 == k1 + I, k2 == rg(s, B, R - k1 - I))
  inv r2a(B phi bool, I idx): k2 == rg(s, B, R - k1 - I)
  inv r2b(B phi bool, I idx): ite(B, k2 == k1 + I, k2 == rg(s, true, R - k1 - I))
  inv r2c(I idx): k2 == rg(s, false, R - k1 - I)
  inv r2d(I idx): k2 == rg(s, true, R - k1 - I)
  inv r2e(I pos): imp(I >= 1, k2 == rg(s, isv(rval(s, k1 + I - 1)), R - k1 - I))
  inv rvv(D phi bool, I idx): ite(D, af(s, true, R - 2) == I, af(s, true, R - 2) == af(s, true, R - I))
  inv rvn(D phi bool, I idx): ite(D, af(s, false, R - 2) == I, af(s, false, R - 2) == af(s, false, R - I))
  inv rvv1(I idx): af(s, true, R - 2) == af(s, true, R - I)
  inv rvn1(I idx): af(s, false, R - 2) == af(s, false, R - I)

func NewSnowball() (r)
  ensures[C22] exists: r != nil
  frame[C22]

func Stemmer.Stem(s, w) (r)
  frame[C22]
