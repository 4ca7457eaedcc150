------------------------------ MODULE GenBase ------------------------------
(* Test vectors from the wire grammar.  A template is a byte sequence in which
   -1 stands for a content byte; Paint fills content with bytes that differ
   from position to position, so that swapped or shifted fields are visible.

   Good(t): valid encodings such that every variant of every union and every
            boundary size / count of every buffer and list of t occurs.
   Bad(t):  encodings with one fault (count or size above capacity with enough
            bytes following, unknown selector) at every place of t.           *)
EXTENDS TpmTypes

CONSTANT Deep            \* TRUE: more boundary sizes

C(n) == [x \in 1..n |-> -1]
Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
At(s, j) == s[((j-1) % Len(s)) + 1]
Dedup(s) == SetToSeq(ToSet(s))

Within(s, cap) == SelectSeq(s, LAMBDA x : x >= 0 /\ x <= cap)
Sizes(cap) == Within(IF Deep THEN <<2, 0, cap, 1, cap-1, (cap \div 2) + 1>> ELSE <<2, 0, cap, 1, cap-1>>, cap)
Counts(cap) == Within(IF Deep THEN <<2, 0, cap, 1, cap-1, 3>> ELSE <<2, 0, cap, 1>>, cap)

RECURSIVE Good(_)
ZipT(ts) == \* ts: sequence of types in wire order (constants given as <<"const", bytes>> are not needed)
  LET gs == TLCEval([x \in 1..Len(ts) |-> Good(ts[x])])
      n  == MaxOf([x \in 1..Len(ts) |-> Len(gs[x])])
  IN IF Len(ts) = 0 THEN << <<>> >>
     ELSE [j \in 1..n |-> Cat([x \in 1..Len(ts) |-> At(gs[x], j + x - 1)])]
Good(t) ==
  CASE t.k = "raw" -> << C(t.n) >>
    [] t.k = "b2"  -> LET s == Sizes(t.cap) IN [j \in 1..Len(s) |-> BE(s[j], 2) \o C(s[j])]
    [] t.k = "lst" -> LET s == Counts(t.cap) g == TLCEval(Good(t.e))
                      IN [j \in 1..Len(s) |-> BE(s[j], t.cw) \o Cat([x \in 1..s[j] |-> At(g, x + j - 1)])]
    [] t.k = "blst" -> [j \in 1..t.cap+1 |-> BE(j-1, t.cw) \o C(j-1)]
    [] t.k = "arr" -> LET g == TLCEval(Good(t.e)) IN << Cat([x \in 1..t.n |-> At(g, x)]) >>
    [] t.k = "st"  -> ZipT(Types(t.f))
    [] t.k = "un"  -> Cat([y \in 1..Len(t.v) |-> LET z == TLCEval(ZipT(t.v[y].f)) IN
                              [j \in 1..Len(z) |-> BE(t.v[y].s, t.sw) \o z[j]]])
    [] t.k = "spl" -> LET a == TLCEval(ZipT(Types(t.a))) m == TLCEval(ZipT(Types(t.m))) IN
                      Cat([y \in 1..Len(t.v) |->
                         LET z == TLCEval(ZipT(t.v[y].f))
                             n == MaxOf(<<Len(a), Len(m), Len(z)>>)
                         IN [j \in 1..n |-> At(a, j) \o BE(t.v[y].s, t.sw) \o At(m, j+1) \o At(z, j)]])
    [] t.k = "opq" -> Good(t.t)

BadSel(vs, sw) ==
  LET ss == {vs[x].s : x \in 1..Len(vs)}
      top == IF sw = 1 THEN 255 ELSE 65535
      cand == {0, 1, 2, 9, top, top-1} \cup {s+1 : s \in ss} \cup {(s + 32768) % 65536 : s \in ss} \cup {(s + 256) % 65536 : s \in ss}
      use == TLCEval({c \in cand : c \notin ss /\ c <= top})
      us == SetToSeq(use)
      all == [j \in 1..Cardinality(use) |-> BE(us[j], sw)]
  IN IF sw = 4 THEN all \o << <<255,255,255,255>>, <<128,0,0,6>>, <<0,1,0,6>>, <<1,0,0,6>> >> ELSE all

RECURSIVE Bad(_)
BadSeq(ts) == \* one faulty element, the others good
  LET g == TLCEval([x \in 1..Len(ts) |-> Good(ts[x])[1]]) IN
  Cat([x \in 1..Len(ts) |->
       LET b == TLCEval(Bad(ts[x])) pre == TLCEval(Cat(SubSeq(g, 1, x-1))) post == Cat(SubSeq(g, x+1, Len(ts)))
       IN [j \in 1..Len(b) |-> pre \o b[j] \o post]])
Bad(t) ==
  CASE t.k = "raw" -> <<>>
    [] t.k = "b2"  -> << BE(t.cap+1, 2) \o C(t.cap+1), <<255,255>> \o C(3), BE(t.cap+1, 2) \o C(1), BE(t.cap + 256, 2) \o C(t.cap+256) >>
    [] t.k = "lst" -> LET g == TLCEval(Good(t.e)[1]) b == TLCEval(Bad(t.e)) IN
                      << BE(t.cap+1, t.cw) \o Cat([x \in 1..t.cap+1 |-> g]), BE(t.cap+1, t.cw) >>
                      \o (IF t.cw = 4 THEN << <<255,255,255,255>>, <<0,1,0,1>> \o g \o g, <<1,0,0,0>>, <<128,0,0,1>> \o g,
                                              <<0,0,2,1>> \o Cat([x \in 1..20 |-> g]) >> ELSE << [x \in 1..t.cw |-> 255] \o g >>)
                      \o [j \in 1..Len(b) |-> BE(1, t.cw) \o b[j]]
                      \o (IF t.cap >= 2 THEN [j \in 1..Len(b) |-> BE(2, t.cw) \o g \o b[j]] ELSE <<>>)
    [] t.k = "blst" -> << BE(t.cap+1, t.cw) \o C(t.cap+1), <<255>> \o C(255) >>
    [] t.k = "arr" -> BadSeq([x \in 1..t.n |-> t.e])
    [] t.k = "st"  -> BadSeq(Types(t.f))
    [] t.k = "un"  -> LET s == TLCEval(BadSel(t.v, t.sw)) IN
                      [j \in 1..Len(s) |-> s[j] \o C(70)]
                      \o Cat([y \in 1..Len(t.v) |-> LET z == TLCEval(BadSeq(t.v[y].f)) IN
                              [j \in 1..Len(z) |-> BE(t.v[y].s, t.sw) \o z[j]]])
    [] t.k = "spl" -> LET a == TLCEval(ZipT(Types(t.a))[1]) m == TLCEval(ZipT(Types(t.m))[1]) bm == TLCEval(BadSeq(Types(t.m))) s == TLCEval(BadSel(t.v, t.sw)) IN
                      [j \in 1..Len(s) |-> a \o s[j] \o m \o C(70)]
                      \o [j \in 1..Len(bm) |-> a \o BE(t.v[1].s, t.sw) \o bm[j] \o ZipT(t.v[1].f)[1]]
                      \o Cat([y \in 1..Len(t.v) |-> LET z == TLCEval(BadSeq(t.v[y].f)) IN
                              [j \in 1..Len(z) |-> a \o BE(t.v[y].s, t.sw) \o m \o z[j]]])
    [] t.k = "opq" -> Bad(t.t)

Paint(tm, salt) == [x \in 1..Len(tm) |-> IF tm[x] >= 0 THEN tm[x]
                                         ELSE (x * 31 + (x \div 256) * 7 + salt * 17 + 1) % 256]

=============================================================================
