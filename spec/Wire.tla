------------------------------- MODULE Wire -------------------------------
(* The TPM 2.0 wire grammar: type terms, and decoding and encoding of them.
   Integers on the wire are byte sequences (big endian).  A decoded value is
   represented by its leaves: the sequence, in wire order, of
   [p |-> path of the field, b |-> its bytes].                              *)
EXTENDS Integers, Sequences, SequencesExt, TLC

U(n)           == [k |-> "raw", n |-> n]                 \* n-byte integer
Raw(n)         == [k |-> "raw", n |-> n]                 \* n opaque bytes
B2(cap)        == [k |-> "b2", cap |-> cap]              \* 16-bit size + bytes
Lst(cw,cap,e)  == [k |-> "lst", cw |-> cw, cap |-> cap, e |-> e]   \* counted list
BLst(cw,cap,c,d) == [k |-> "blst", cw |-> cw, cap |-> cap, c |-> c, d |-> d] \* counted bytes, two named fields
Arr(n,e)       == [k |-> "arr", n |-> n, e |-> e]        \* fixed array
St(f)          == [k |-> "st", f |-> f]                  \* f: << <<name, type>>, ... >>
V(n,s,f)       == [n |-> n, s |-> s, f |-> f]            \* variant: name, selector, field types
Un(sw,v)       == [k |-> "un", sw |-> sw, v |-> v]       \* selector, then variant
Spl(a,u,sw,m,v) == [k |-> "spl", a |-> a, u |-> u, sw |-> sw, m |-> m, v |-> v]
                  \* fields a, selector of union field u, fields m, variant
Opq(t)         == [k |-> "opq", t |-> t]                 \* one leaf: the whole encoding

BIG == 2147483647
\* Big-endian number of the n bytes after position i, saturating at BIG.
Num(b, i, n) ==
  IF n = 1 THEN b[i+1]
  ELSE IF n = 2 THEN b[i+1]*256 + b[i+2]
  ELSE IF b[i+1] > 127 THEN BIG
  ELSE ((b[i+1]*256 + b[i+2])*256 + b[i+3])*256 + b[i+4]

BE(x, n) == [j \in 1..n |-> IF n - j > 3 THEN 0 ELSE (x \div (256^(n-j))) % 256]

Sub(p, f) == IF p = "" THEN f ELSE p \o "." \o f
Ok(i, l)  == [e |-> {}, i |-> i, l |-> l]
Fail(e)   == [e |-> e, i |-> 0, l |-> <<>>]
IsOk(r)   == r.e = {}
Leaf(p,b) == <<[p |-> p, b |-> b]>>

FindV(vs, s) == SelectInSeq(vs, LAMBDA v : v.s = s)      \* 0 if none

(* Decode type t from bytes b[i+1..lim]; the result has either a non-empty
   set e of acceptable error kinds, or the position after the value and its
   leaves.  The first fault in wire order decides; only for a selector that
   stands apart from its union are two answers acceptable (the unknown
   selector, or a fault of the fields in between).                          *)
RECURSIVE Dec(_,_,_,_,_)
DecSeq(ts, b, i, lim) ==          \* ts: sequence of <<path, type>>
  FoldLeft(LAMBDA acc, x : IF ~IsOk(acc) THEN acc ELSE
              LET r == Dec(x[2], b, acc.i, lim, x[1]) IN
              IF IsOk(r) THEN Ok(r.i, acc.l \o r.l) ELSE r,
           Ok(i, <<>>), ts)
Named(p, f)  == [j \in 1..Len(f) |-> <<IF f[j][1] = "" THEN p ELSE Sub(p, f[j][1]), f[j][2]>>]
Tuple(p, f)  == [j \in 1..Len(f) |-> <<p \o ".f" \o ToString(j-1), f[j]>>]
Copies(p, n, e) == [j \in 1..n |-> <<p \o "[]", e>>]

Dec(t, b, i, lim, p) ==
  CASE t.k = "raw" -> IF i + t.n > lim THEN Fail({"End"})
                      ELSE Ok(i + t.n, Leaf(p, SubSeq(b, i+1, i+t.n)))
    [] t.k = "b2"  -> IF i + 2 > lim THEN Fail({"End"})
                      ELSE LET s == Num(b, i, 2) IN
                           IF s > lim - i - 2 \/ s > t.cap THEN Fail({"End"})
                           ELSE Ok(i+2+s, Leaf(p, SubSeq(b, i+3, i+2+s)))
    [] t.k = "lst" -> IF i + t.cw > lim THEN Fail({"End"})
                      ELSE LET c == Num(b, i, t.cw) IN
                           IF c > t.cap THEN Fail({"ArrLen"})
                           ELSE LET r == DecSeq(Copies(p, c, t.e), b, i + t.cw, lim) IN
                                IF ~IsOk(r) THEN r
                                ELSE Ok(r.i, Leaf(p \o "#", SubSeq(b, i+1, i+t.cw)) \o r.l)
    [] t.k = "blst" -> IF i + t.cw > lim THEN Fail({"End"})
                      ELSE LET c == Num(b, i, t.cw) j == i + t.cw IN
                           IF c > t.cap THEN Fail({"ArrLen"})
                           ELSE IF j + c > lim THEN Fail({"End"})
                           ELSE Ok(j + c, Leaf(Sub(p, t.c), SubSeq(b, i+1, j)) \o Leaf(Sub(p, t.d), SubSeq(b, j+1, j+c)))
    [] t.k = "arr" -> DecSeq(Copies(p, t.n, t.e), b, i, lim)
    [] t.k = "st"  -> DecSeq(Named(p, t.f), b, i, lim)
    [] t.k = "un"  -> IF i + t.sw > lim THEN Fail({"End"})
                      ELSE LET v == FindV(t.v, Num(b, i, t.sw)) IN
                           IF v = 0 THEN Fail({"Sel"})
                           ELSE LET r == DecSeq(Tuple(p, t.v[v].f), b, i + t.sw, lim) IN
                                IF ~IsOk(r) THEN r
                                ELSE Ok(r.i, Leaf(p \o "=" \o t.v[v].n, SubSeq(b, i+1, i+t.sw)) \o r.l)
    [] t.k = "spl" -> LET a == DecSeq(Named(p, t.a), b, i, lim) IN
                      IF ~IsOk(a) THEN a
                      ELSE IF a.i + t.sw > lim THEN Fail({"End"})
                      ELSE LET v == FindV(t.v, Num(b, a.i, t.sw))
                               m == DecSeq(Named(p, t.m), b, a.i + t.sw, lim) IN
                           IF v = 0 THEN Fail({"Sel"} \cup m.e)
                           ELSE IF ~IsOk(m) THEN m
                           ELSE LET r == DecSeq(Tuple(Sub(p, t.u), t.v[v].f), b, m.i, lim) IN
                                IF ~IsOk(r) THEN r
                                ELSE Ok(r.i, a.l \o Leaf(Sub(p, t.u) \o "=" \o t.v[v].n, SubSeq(b, a.i+1, a.i+t.sw))
                                              \o m.l \o r.l)
    [] t.k = "opq" -> LET r == Dec(t.t, b, i, lim, "") IN
                      IF IsOk(r) THEN Ok(r.i, Leaf(p, SubSeq(b, i+1, r.i))) ELSE r

Decode(t, b) == Dec(t, b, 0, Len(b), "")

(* Encode the leaves ls (from position j on) as type t: bytes and the position
   of the next leaf.                                                          *)
RECURSIVE Enc(_,_,_)
EncSeq(ts, ls, j) ==
  FoldLeft(LAMBDA acc, t : LET r == Enc(t, ls, acc.j) IN [b |-> acc.b \o r.b, j |-> r.j],
           [b |-> <<>>, j |-> j], ts)
Types(f) == [x \in 1..Len(f) |-> f[x][2]]
Enc(t, ls, j) ==
  CASE t.k \in {"raw", "opq"} -> [b |-> ls[j].b, j |-> j+1]
    [] t.k = "b2"  -> [b |-> BE(Len(ls[j].b), 2) \o ls[j].b, j |-> j+1]
    [] t.k = "blst" -> [b |-> ls[j].b \o ls[j+1].b, j |-> j+2]
    [] t.k = "lst" -> LET r == EncSeq([x \in 1..Num(ls[j].b, 0, t.cw) |-> t.e], ls, j+1)
                      IN [b |-> ls[j].b \o r.b, j |-> r.j]
    [] t.k = "arr" -> EncSeq([x \in 1..t.n |-> t.e], ls, j)
    [] t.k = "st"  -> EncSeq(Types(t.f), ls, j)
    [] t.k = "un"  -> LET v == FindV(t.v, Num(ls[j].b, 0, t.sw))
                          r == EncSeq(t.v[v].f, ls, j+1)
                      IN [b |-> ls[j].b \o r.b, j |-> r.j]
    [] t.k = "spl" -> LET a == EncSeq(Types(t.a), ls, j)
                          v == FindV(t.v, Num(ls[a.j].b, 0, t.sw))
                          m == EncSeq(Types(t.m), ls, a.j+1)
                          r == EncSeq(t.v[v].f, ls, m.j)
                      IN [b |-> a.b \o ls[a.j].b \o m.b \o r.b, j |-> r.j]
Encode(t, ls) == Enc(t, ls, 1).b

\* Largest encoding of a type.
MaxOf(s) == FoldLeft(LAMBDA x, y : IF x > y THEN x ELSE y, 0, s)
SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
RECURSIVE MaxEnc(_)
MaxEnc(t) ==
  CASE t.k = "raw" -> t.n
    [] t.k = "b2"  -> 2 + t.cap
    [] t.k = "lst" -> t.cw + t.cap * MaxEnc(t.e)
    [] t.k = "blst" -> t.cw + t.cap
    [] t.k = "arr" -> t.n * MaxEnc(t.e)
    [] t.k = "st"  -> SumOf([x \in 1..Len(t.f) |-> MaxEnc(t.f[x][2])])
    [] t.k = "un"  -> t.sw + MaxOf([y \in 1..Len(t.v) |-> SumOf([x \in 1..Len(t.v[y].f) |-> MaxEnc(t.v[y].f[x])])])
    [] t.k = "spl" -> t.sw + SumOf([x \in 1..Len(t.a) |-> MaxEnc(t.a[x][2])]) + SumOf([x \in 1..Len(t.m) |-> MaxEnc(t.m[x][2])])
                      + MaxOf([y \in 1..Len(t.v) |-> SumOf([x \in 1..Len(t.v[y].f) |-> MaxEnc(t.v[y].f[x])])])
    [] t.k = "opq" -> MaxEnc(t.t)
=============================================================================
