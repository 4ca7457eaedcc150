----------------------------- MODULE GenAdapter -----------------------------
EXTENDS Adapter, Json, IOUtils, TLC
CONSTANT Deep
Cat(ss) == LET t == TLCEval(ss) IN FoldLeft(LAMBDA x, y : TLCEval(x \o y), <<>>, t)
Kinds == <<"all", "words", "u32", "bytes">>
Op(f, n, a) == [f |-> f, n |-> n, add |-> a]
A2 == <<9, 200>>
Case(k, fail, ops) == [kind |-> k, fail |-> fail, ops |-> ops]
Ns == [x \in 1..(IF Deep THEN 300 ELSE 44) |-> x - 1] \o <<63, 64, 65, 100, 255, 256, 257, 1000, 1001, 1003, 1005>>
\* every length, with a failure at every call
Fills(f) == Cat([k \in 1..4 |-> Cat([i \in 1..Len(Ns) |-> LET n == TLCEval(Ns[i]) c == TLCEval(Len(Prog(Kinds[k], f, n, A2))) top == IF c > 12 THEN 12 ELSE c IN
   [z \in 1..(top + 3) |-> Case(Kinds[k], (IF z > top + 1 THEN c + z - top - 3 ELSE z - 1), <<Op(f, n, A2), Op("u32", 0, <<>>)>>)]])])
\* longer ones, and many lengths of additional input
More == LET ns == [x \in 1..257 |-> x + 43] \o <<511, 512, 513, 1023, 1024, 1025, 2048, 4096>> IN
  Cat([k \in 1..4 |-> Cat([i \in 1..Len(ns) |-> LET n == ns[i] f == IF i % 2 = 0 \/ k = 1 THEN "fillvia" ELSE "fill"
                                                  c == TLCEval(Len(Prog(Kinds[k], f, n, A2))) IN
     <<Case(Kinds[k], 0, <<Op(f, n, A2), Op("u32", 0, <<>>)>>)>> \o (IF i % 8 = 0 THEN <<Case(Kinds[k], c, <<Op(f, n, A2)>>), Case(Kinds[k], (i % c) + 1, <<Op(f, n, A2)>>)>> ELSE <<>>)])])
  \o Cat([k \in 1..4 |-> Cat([a \in 1..70 |-> LET add == [x \in 1..a |-> (x * 7 + a) % 256] IN
     [g \in 1..7 |-> LET f == <<"fill", "fillvia", "u32", "u64", "u32fill", "u64fill", "u64u32">>[g] IN Case(Kinds[k], 0, <<Op(f, 11, add), Op("u32", 0, <<>>)>>)]])])
Single == Cat([k \in 1..4 |-> Cat([g \in 1..5 |-> LET f == <<"u32", "u64", "u32fill", "u64fill", "u64u32">>[g] IN
   Cat([z \in 1..4 |-> <<Case(Kinds[k], z - 1, <<Op(f, 0, A2), Op(f, 0, <<>>)>>), Case(Kinds[k], z - 1, <<Op(f, 0, <<>>), Op("u64", 0, A2)>>)>>])])])
\* words of operations on one stream
Letters == <<Op("u32", 0, <<1>>), Op("u64", 0, <<>>), Op("fill", 3, A2), Op("fill", 5, <<>>), Op("fill", 13, <<5>>), Op("fillvia", 17, <<>>), Op("u64u32", 0, <<4>>), Op("u64fill", 0, <<3>>), Op("u32fill", 0, <<>>), Op("fill", 0, A2)>>
W == 1..Len(Letters)
Hists == Cat([k \in 1..4 |-> LET ws == TLCEval(SetToSeq(W \X W \X W)) IN
   [i \in 1..Len(ws) |-> Case(Kinds[k], (i % 9), <<Letters[ws[i][1]], Letters[ws[i][2]], Letters[ws[i][3]]>>)]])
\* lengths and additional inputs beyond one byte and beyond 16 bits
Far == Cat([k \in 1..4 |-> LET K == Kinds[k] IN
     (IF Deep \/ k \in {2, 3} THEN [i \in 1..3 |-> Case(K, 0, <<Op("fillvia", <<65535, 65541, 131076>>[i], A2), Op("u32", 0, <<>>)>>)] ELSE <<>>)
  \o <<Case(K, 0, <<Op("fill", 65543, <<>>), Op("u32", 0, <<>>)>>)>>
  \o Cat([i \in 1..10 |-> LET a == <<127, 128, 129, 255, 256, 257, 511, 1000, 4096, 65537>>[i] add == [x \in 1..a |-> (x * 7 + (x \div 256) + a) % 256] IN
       [g \in 1..7 |-> LET f == <<"fill", "fillvia", "u32", "u64", "u32fill", "u64fill", "u64u32">>[g] IN Case(K, 0, <<Op(f, 21, add), Op("u32", 0, <<>>)>>)]])])
Cases == Far \o Fills("fill") \o Fills("fillvia") \o Single \o Hists \o More
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
