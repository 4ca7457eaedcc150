------------------------------- MODULE Lists -------------------------------
(* The list types, and a pool of distinguishable elements for each.          *)
EXTENDS GenBase
ListTypes == <<"TpmlPcrSelection", "TpmlAlgProperty", "TpmlHandle", "TpmlCc", "TpmlTaggedTpmProperty",
               "TpmlTaggedPcrProperty", "TpmlEccCurve", "TpmlTaggedPolicy", "TpmlDigest">>
CapOf(n) == TypeOf(n).cap
ElemTerm(n) == TypeOf(n).e
\* element i: its first two content bytes are its number
Wide(t) == SelectSeq(Good(t), LAMBDA g : Cardinality({x \in 1..Len(g) : g[x] = -1}) >= 2)
ElemOf(gs, i) ==
  LET g == gs[(i % Len(gs)) + 1]
      c1 == SelectInSeq(g, LAMBDA v : v = -1)
      c2 == c1 + SelectInSeq(SubSeq(g, c1+1, Len(g)), LAMBDA v : v = -1)
      p == Paint(g, i)
  IN [p EXCEPT ![c1] = (i + 1) \div 256, ![c2] = (i + 1) % 256]
Pool(n, k) == LET gs == TLCEval(Wide(ElemTerm(n))) IN [i \in 1..k |-> ElemOf(gs, i - 1)]
=============================================================================
