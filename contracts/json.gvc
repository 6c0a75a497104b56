// ---- C21: JSON ----
// What a lexer sees in a byte slice: tokens at 0, 1, 2, ... The kind is the
// punctuation byte, '"' (34) for a string, '0' (48) for a whole number, '.' (46) for
// another number, 'n' 't' 'f' for the keywords, and 0 for the end of the text.
sort Jd
fun jd(A Arr[Int,Int], n Int) Jd
fun jk(D Jd, p Int) Int
fun js(D Jd, p Int) Str
fun ji(D Jd, p Int) Int
// text that shares memory with the input
fun borrowed(s Str) Str
axiom borrowed_is(s Str) pat(borrowed(s)): borrowed(s) == s
// valid UTF-8 is written as it is
fun utf8valid(s Str) Bool
fun utf8fixed(s Str) Str

// the tokens a writer has collected
ghost jwn Arr[Int,Int]
ghost jwk Arr[Int,Arr[Int,Int]]
ghost jws Arr[Int,Arr[Int,Str]]
ghost jwi Arr[Int,Arr[Int,Int]]
fun jtok(K Arr[Int,Int], S Arr[Int,Str], I Arr[Int,Int], n Int) Jd
axiom jtok_kind(K Arr[Int,Int], S Arr[Int,Str], I Arr[Int,Int], n Int, p Int) pat(jk(jtok(K, S, I, n), p)): jk(jtok(K, S, I, n), p) == ite(0 <= p && p < n, K[p], 0)
axiom jtok_str(K Arr[Int,Int], S Arr[Int,Str], I Arr[Int,Int], n Int, p Int) pat(js(jtok(K, S, I, n), p)): js(jtok(K, S, I, n), p) == S[p]
axiom jtok_int(K Arr[Int,Int], S Arr[Int,Str], I Arr[Int,Int], n Int, p Int) pat(ji(jtok(K, S, I, n), p)): ji(jtok(K, S, I, n), p) == I[p]

// a lexer's state: the current or next token, the separator it has to come
// after, whether it has been read, whether a container has just begun, and
// whether anything has gone wrong
ghost jpos Arr[Int,Int]
ghost jwant Arr[Int,Int]
ghost jfetched Arr[Int,Bool]
ghost jfirst Arr[Int,Bool]
ghost jbad Arr[Int,Bool]

// says nothing; terms the prover should look at
fun jseen(b Bool) Bool

// ---- grammar ----
// the value at p is well formed; je is the token after it
fun jwf(D Jd, p Int) Bool
fun je(D Jd, p Int) Int
// an object has jn members, the i-th one's name at jf(D, p, i)
fun jn(D Jd, p Int) Int
rec jf(D Jd, p Int, i Int) Int on i: p+1; je(D, jf(D, p, i-1)+2) + 1
// what a well-formed member looks like, and what follows it
macro jmember(D, p, i, last) = jk(D, jf(D, p, i)) == 34 && jk(D, jf(D, p, i)+1) == 58 && jwf(D, jf(D, p, i)+2) && jk(D, je(D, jf(D, p, i)+2)) == ite(last, 125, 44)
axiom jwf_plain(D Jd, p Int) pat(je(D, p)) pat(jwf(D, p)): imp(jk(D, p) == 34 || jk(D, p) == 48 || jk(D, p) == 46 || jk(D, p) == 110 || jk(D, p) == 116 || jk(D, p) == 102, jwf(D, p) && je(D, p) == p+1)
axiom jwf_kind(D Jd, p Int) pat(jwf(D, p)): imp(jwf(D, p), jk(D, p) == 123 || jk(D, p) == 91 || jk(D, p) == 34 || jk(D, p) == 48 || jk(D, p) == 46 || jk(D, p) == 110 || jk(D, p) == 116 || jk(D, p) == 102)
axiom jwf_end(D Jd, p Int) pat(je(D, p)): imp(jwf(D, p), je(D, p) > p)
axiom jwf_member(D Jd, p Int, i Int) pat(jwf(D, p), jf(D, p, i)): imp(jwf(D, p) && jk(D, p) == 123 && 0 <= i && i < jn(D, p), jmember(D, p, i, i+1 == jn(D, p)))
axiom jwf_object(D Jd, p Int) pat(jn(D, p)): imp(jwf(D, p) && jk(D, p) == 123, jn(D, p) >= 0 && je(D, p) == ite(jn(D, p) == 0, p+2, jf(D, p, jn(D, p))) && imp(jn(D, p) == 0, jk(D, p+1) == 125))
// m members, written out
rec jcommas(D Jd, p Int, m Int) Bool on m: true; jcommas(D, p, m-1) && jmember(D, p, m-1, false)
fun jobj(D Jd, p Int, m Int) Bool
axiom jobj_def(D Jd, p Int, m Int) pat(jobj(D, p, m)): imp(m > 0, jobj(D, p, m) == (jk(D, p) == 123 && jcommas(D, p, m-1) && jmember(D, p, m-1, true)))
axiom jobj_is(D Jd, p Int, m Int) pat(jobj(D, p, m)): imp(m > 0 && jobj(D, p, m), jwf(D, p) && jn(D, p) == m && je(D, p) == jf(D, p, m))
// the last of the first m members with a name, or -1
rec jfind(D Jd, p Int, m Int, k Str) Int on m: -1; ite(js(D, jf(D, p, m-1)) == k, m-1, jfind(D, p, m-1, k))
lemma jfind_is(D Jd, p Int, m Int, k Str) induct m pat(jfind(D, p, m, k)): -1 <= jfind(D, p, m, k) && imp(m >= 0, jfind(D, p, m, k) < m) && imp(jfind(D, p, m, k) >= 0, js(D, jf(D, p, jfind(D, p, m, k))) == k)

// the value of the member with a name
macro jval(D, p, m, k) = jf(D, p, jfind(D, p, m, k)) + 2

// a document, and a result, with members in any order and others among them
macro jdoc(D, p) = jwf(D, p) && jk(D, p) == 123 && jfind(D, p, jn(D, p), "id") >= 0 && jfind(D, p, jn(D, p), "raw") >= 0
      && forall(i, Int, pat(jf(D, p, i)), imp(0 <= i && i < jn(D, p) && (js(D, jf(D, p, i)) == "id" || js(D, jf(D, p, i)) == "raw"), jk(D, jf(D, p, i)+2) == 34))
macro jresult(D, p) = jwf(D, p) && jk(D, p) == 123 && jfind(D, p, jn(D, p), "doc") >= 0 && jfind(D, p, jn(D, p), "hits") >= 0
      && forall(i, Int, pat(jf(D, p, i)), imp(0 <= i && i < jn(D, p) && js(D, jf(D, p, i)) == "hits", jk(D, jf(D, p, i)+2) == 48 && ji(D, jf(D, p, i)+2) <= 9223372036854775807 && ji(D, jf(D, p, i)+2) + 1 >= 0-9223372036854775807))
      && forall(i, Int, pat(jf(D, p, i)), imp(0 <= i && i < jn(D, p) && js(D, jf(D, p, i)) == "doc", jdoc(D, jf(D, p, i)+2)))
// the document and the count it holds
macro jdocname(D, q) = js(D, jval(D, q, jn(D, q), "id"))
macro jdoctext(D, q) = js(D, jval(D, q, jn(D, q), "raw"))


// a result is written so that any reader gets it back
macro jencoded(D, p, r) = jresult(D, p) && ji(D, jval(D, p, jn(D, p), "hits")) == r.Hits
      && imp(utf8valid(r.Document.Name), jdocname(D, jval(D, p, jn(D, p), "doc")) == r.Document.Name)
      && imp(utf8valid(r.Document.Content), jdoctext(D, jval(D, p, jn(D, p), "doc")) == r.Document.Content)

macro jwrote(w) = jtok(jwk[w], jws[w], jwi[w], jwn[w])

func SearchResult.MarshalJSON(v) (b, err)
  ensures[C21] ok: err == nil
  ensures[C21] encoded: jencoded(jd(c(b), len(b)), 0, v)
  ensures[C21] alone: jk(jd(c(b), len(b)), je(jd(c(b), len(b)), 0)) == 0

func SearchResult.MarshalEasyJSON(v, w)
  requires w != nil
  let P = old(jwn[w])
  requires jwn[w] >= 0
  ensures[C21] encoded: jencoded(jwrote(w), P, v)
  ensures[C21] alone: je(jwrote(w), P) == jwn[w]
  ensures[C21] kept: forall(i, Int, imp(0 <= i && i < P, jwk[w][i] == old(jwk)[w][i] && jws[w][i] == old(jws)[w][i] && jwi[w][i] == old(jwi)[w][i]))

func SearchResult.UnmarshalJSON(v, data) (err)
  opt rounds yes
  requires v != nil
  let D = jd(c(data), len(data))
  requires jresult(D, 0) && jk(D, je(D, 0)) == 0
  let Q = jval(D, 0, jn(D, 0), "doc")
  ensures[C21] ok: err == nil
  ensures[C21] name: v.Document.Name == jdocname(D, Q)
  ensures[C21] text: v.Document.Content == jdoctext(D, Q)
  ensures[C21] hits: v.Hits == ji(D, jval(D, 0, jn(D, 0), "hits"))
  inv lexer(L any *jlexer.Lexer, I round): I >= 0 && !jfetched[L] && !jbad[L]
  inv start(L any *jlexer.Lexer, I round): imp(I == 0, jpos[L] == entry(jpos[L]) && jwant[L] == 0 && jfirst[L])
  inv next(L any *jlexer.Lexer, I round): imp(I > 0, jpos[L] + 1 == jf(D, entry(jpos[L])-1, I) && jwant[L] == 44 && !jfirst[L])
  inv members(L any *jlexer.Lexer, I round): I <= jn(D, entry(jpos[L])-1)
  inv hits(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "hits") >= 0, V.Hits == ji(D, jval(D, entry(jpos[L])-1, I, "hits")))
  inv doc(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "doc") >= 0, V.Document.Name == jdocname(D, jval(D, entry(jpos[L])-1, I, "doc")) && V.Document.Content == jdoctext(D, jval(D, entry(jpos[L])-1, I, "doc")))
  inv id(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "id") >= 0, V.Document.Name == js(D, jval(D, entry(jpos[L])-1, I, "id")))
  inv docid(L any *jlexer.Lexer, V any *Doc, I round): imp(jfind(D, entry(jpos[L])-1, I, "id") >= 0, V.Name == js(D, jval(D, entry(jpos[L])-1, I, "id")))
  inv raw(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "raw") >= 0, V.Document.Content == js(D, jval(D, entry(jpos[L])-1, I, "raw")))
  inv docraw(L any *jlexer.Lexer, V any *Doc, I round): imp(jfind(D, entry(jpos[L])-1, I, "raw") >= 0, V.Content == js(D, jval(D, entry(jpos[L])-1, I, "raw")))
  inv docs(L any *jlexer.Lexer, V any *Doc, I round): imp(jfind(D, entry(jpos[L])-1, I, "doc") >= 0, V.Name == jdocname(D, jval(D, entry(jpos[L])-1, I, "doc")) && V.Content == jdoctext(D, jval(D, entry(jpos[L])-1, I, "doc")))
  inv hitsv(L any *jlexer.Lexer, V phi int, I round): imp(jfind(D, entry(jpos[L])-1, I, "hits") >= 0, V == ji(D, jval(D, entry(jpos[L])-1, I, "hits")))
  inv idv(L any *jlexer.Lexer, V phi string, I round): imp(jfind(D, entry(jpos[L])-1, I, "id") >= 0, V == js(D, jval(D, entry(jpos[L])-1, I, "id")))
  inv rawv(L any *jlexer.Lexer, V phi string, I round): imp(jfind(D, entry(jpos[L])-1, I, "raw") >= 0, V == js(D, jval(D, entry(jpos[L])-1, I, "raw")))

func SearchResult.UnmarshalEasyJSON(v, l)
  opt rounds yes
  requires v != nil && l != nil
  requires !jbad[l] && !jfetched[l] && jwant[l] == 0 && jpos[l] >= 0
  let D = jd(c(l.Data), len(l.Data))
  let P = old(jpos[l])
  requires jresult(D, P) && imp(P == 0, jk(D, je(D, 0)) == 0)
  let Q = jval(D, P, jn(D, P), "doc")
  ensures[C21] ok: !jbad[l] && !jfetched[l] && jpos[l] == je(D, P)
  ensures[C21] name: v.Document.Name == jdocname(D, Q)
  ensures[C21] text: v.Document.Content == jdoctext(D, Q)
  ensures[C21] hits: v.Hits == ji(D, jval(D, P, jn(D, P), "hits"))
  inv lexer(L any *jlexer.Lexer, I round): I >= 0 && !jfetched[L] && !jbad[L]
  inv start(L any *jlexer.Lexer, I round): imp(I == 0, jpos[L] == entry(jpos[L]) && jwant[L] == 0 && jfirst[L])
  inv next(L any *jlexer.Lexer, I round): imp(I > 0, jpos[L] + 1 == jf(D, entry(jpos[L])-1, I) && jwant[L] == 44 && !jfirst[L])
  inv members(L any *jlexer.Lexer, I round): I <= jn(D, entry(jpos[L])-1)
  inv hits(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "hits") >= 0, V.Hits == ji(D, jval(D, entry(jpos[L])-1, I, "hits")))
  inv doc(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "doc") >= 0, V.Document.Name == jdocname(D, jval(D, entry(jpos[L])-1, I, "doc")) && V.Document.Content == jdoctext(D, jval(D, entry(jpos[L])-1, I, "doc")))
  inv id(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "id") >= 0, V.Document.Name == js(D, jval(D, entry(jpos[L])-1, I, "id")))
  inv docid(L any *jlexer.Lexer, V any *Doc, I round): imp(jfind(D, entry(jpos[L])-1, I, "id") >= 0, V.Name == js(D, jval(D, entry(jpos[L])-1, I, "id")))
  inv raw(L any *jlexer.Lexer, V any *SearchResult, I round): imp(jfind(D, entry(jpos[L])-1, I, "raw") >= 0, V.Document.Content == js(D, jval(D, entry(jpos[L])-1, I, "raw")))
  inv docraw(L any *jlexer.Lexer, V any *Doc, I round): imp(jfind(D, entry(jpos[L])-1, I, "raw") >= 0, V.Content == js(D, jval(D, entry(jpos[L])-1, I, "raw")))
  inv docs(L any *jlexer.Lexer, V any *Doc, I round): imp(jfind(D, entry(jpos[L])-1, I, "doc") >= 0, V.Name == jdocname(D, jval(D, entry(jpos[L])-1, I, "doc")) && V.Content == jdoctext(D, jval(D, entry(jpos[L])-1, I, "doc")))
  inv hitsv(L any *jlexer.Lexer, V phi int, I round): imp(jfind(D, entry(jpos[L])-1, I, "hits") >= 0, V == ji(D, jval(D, entry(jpos[L])-1, I, "hits")))
  inv idv(L any *jlexer.Lexer, V phi string, I round): imp(jfind(D, entry(jpos[L])-1, I, "id") >= 0, V == js(D, jval(D, entry(jpos[L])-1, I, "id")))
  inv rawv(L any *jlexer.Lexer, V phi string, I round): imp(jfind(D, entry(jpos[L])-1, I, "raw") >= 0, V == js(D, jval(D, entry(jpos[L])-1, I, "raw")))
