----------------------------- MODULE GenSized -----------------------------
(* Cases for sized buffers: slice lengths at every boundary of every type, and
   valid, largest and invalid structures for the wrapping types.             *)
EXTENDS GenBase
Lens(cap) == Dedup(<<0, 1, 2, cap-1, cap, cap+1, cap+2, 2*cap, 255, 256, 257, 65535, 65536, 65537, 65536 + cap, 65536 + cap - 1, 131072>>)
\* capacities as the specification fixes them, not as the code reports them
B2Table == SelectSeq(TypeTable, LAMBDA x : x[2].k = "b2") \o << <<"UserTop", B2(65535)>> >>
SliceCases == Cat([x \in 1..Len(B2Table) |->
   LET ls == TLCEval(Lens(B2Table[x][2].cap)) IN
   [j \in 1..Len(ls) |-> [op |-> "fb", t |-> B2Table[x][1], n |-> ls[j], salt |-> j * 7 + x, b |-> <<>>]]])
\* every length of every type, in seven styles of content
AllCases == Cat([x \in 1..Len(B2Table) |-> LET cap == B2Table[x][2].cap IN
   [st \in 1..(IF cap = 65535 THEN 1 ELSE 7) |-> [op |-> "all", t |-> B2Table[x][1], n |-> IF cap = 65535 THEN (IF Deep THEN 65536 ELSE 3000) ELSE cap + (IF Deep THEN 5000 ELSE 300), salt |-> IF cap = 65535 THEN 2 ELSE st - 1, b |-> <<>>]]])
DefCases == [x \in 1..Len(B2Table) |-> [op |-> "def", t |-> B2Table[x][1], n |-> 0, salt |-> 0, b |-> <<>>]]
\* structure in which every buffer and list is full and the largest variant is chosen
RECURSIVE Largest(_)
LargestV(vs) == CHOOSE v \in ToSet(vs) : \A w \in ToSet(vs) :
   SumOf([x \in 1..Len(v.f) |-> MaxEnc(v.f[x])]) >= SumOf([x \in 1..Len(w.f) |-> MaxEnc(w.f[x])])
Largest(t) ==
  CASE t.k = "raw" -> C(t.n)
    [] t.k = "b2" -> BE(t.cap, 2) \o C(t.cap)
    [] t.k = "lst" -> BE(t.cap, t.cw) \o Cat([x \in 1..t.cap |-> Largest(t.e)])
    [] t.k = "blst" -> BE(t.cap, t.cw) \o C(t.cap)
    [] t.k = "arr" -> Cat([x \in 1..t.n |-> Largest(t.e)])
    [] t.k = "st" -> Cat([x \in 1..Len(t.f) |-> Largest(t.f[x][2])])
    [] t.k = "un" -> LET v == LargestV(t.v) IN BE(v.s, t.sw) \o Cat([x \in 1..Len(v.f) |-> Largest(v.f[x])])
    [] t.k = "spl" -> LET v == LargestV(t.v) IN Cat([x \in 1..Len(t.a) |-> Largest(t.a[x][2])]) \o BE(v.s, t.sw)
                      \o Cat([x \in 1..Len(t.m) |-> Largest(t.m[x][2])]) \o Cat([x \in 1..Len(v.f) |-> Largest(v.f[x])])
    [] t.k = "opq" -> Largest(t.t)
StructTypes == <<"UserWrap", "Tpm2bPublic", "Tpm2bSensitiveCreate", "Tpm2bCreationData">>
WrapCases == Cat([x \in 1..Len(StructTypes) |->
   LET t == (CHOOSE w \in ToSet(Wrapped) : w[1] = StructTypes[x])[2]
       g == TLCEval(<<Largest(t)>> \o Good(t)) b == TLCEval(Bad(t)) IN
   [j \in 1..Len(g) |-> [op |-> "wrap", t |-> StructTypes[x], n |-> 0, salt |-> 0, b |-> Paint(g[j], j)]]
   \o [j \in 1..Len(g) |-> [op |-> "unwrap", t |-> StructTypes[x], n |-> 0, salt |-> 0,
          b |-> LET p == Paint(g[j], j) IN SubSeq(p, 1, IF j % 2 = 0 THEN Len(p) - 1 ELSE Len(p) \div 2)]]
   \o [j \in 1..Len(b) |-> [op |-> "unwrap", t |-> StructTypes[x], n |-> 0, salt |-> 0, b |-> Paint(b[j], j)]]])
ASSUME LET c == TLCEval(SliceCases \o AllCases \o DefCases \o WrapCases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
