------------------------------ MODULE GenWire ------------------------------
(* Test vectors of the wire grammar for every type of the public API.       *)
EXTENDS GenBase

\* Trailing bytes after a valid encoding: none, or a few.
Trail(j) == IF j % 3 = 0 THEN <<170, 1, 0>> ELSE <<>>

\* the content bytes all alike
Flat(tm, z) == [x \in 1..Len(tm) |-> IF tm[x] >= 0 THEN tm[x] ELSE z]
\* sweeps over every size, count and value
Kind(t) == IF t.k = "opq" THEN t.t ELSE t
Spans(n, u) == LET t == Kind(u) IN
  CASE t.k = "b2" -> [st \in 1..7 |-> [op |-> "sizes", t |-> n, n |-> t.cap, style |-> st - 1]] \o <<[op |-> "shorts", t |-> n, n |-> t.cap, style |-> 0]>>
    [] t.k = "lst" -> LET g == TLCEval(Good(t.e)) IN
                      <<[op |-> "counts", t |-> n, n |-> t.cw, style |-> 0, elems |-> [x \in 1..t.cap |-> Paint(At(g, x), x)]]>>
    [] t.k = "raw" /\ t.n <= 8 -> <<[op |-> "vals", t |-> n, n |-> t.n, style |-> 0]>>
                                  \o (IF t.n \in {4, 8} THEN <<[op |-> "words", t |-> n, n |-> t.n, style |-> 0]>> ELSE <<>>)
    [] OTHER -> <<>>
CasesOf(x) ==
  LET n == TypeTable[x][1] t == TypeTable[x][2] g == TLCEval(Good(t)) b == TLCEval(Bad(t)) IN
  Spans(n, t)
  \o [j \in 1..Len(g) |-> [t |-> n, b |-> Paint(g[j], j + x) \o Trail(j)]]
  \o (IF t.k \in {"st", "un", "spl"} THEN Cat([z \in 1..4 |-> [j \in 1..(IF t.k = "st" THEN 1 ELSE Len(t.v)) |-> [t |-> n, b |-> Flat(At(g, j), (<<0, 255, 128, 127>>)[z])]]]) ELSE <<>>)
  \o [j \in 1..Len(b) |-> [t |-> n, b |-> Paint(b[j], j + x)]]

Part == atoi(IOEnv.VERIF_PART)
Parts == atoi(IOEnv.VERIF_PARTS)
Mine == SelectSeq([x \in 1..Len(TypeTable) |-> x], LAMBDA x : x % Parts = Part)
Cases == Cat([x \in 1..Len(Mine) |-> CasesOf(Mine[x])])
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
