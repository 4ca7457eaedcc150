------------------------------ MODULE GenBuffer ------------------------------
EXTENDS Buffer, SequencesExt, Json, IOUtils, TLC
CONSTANT Deep
Cat(ss) == LET t == TLCEval(ss) IN FoldLeft(LAMBDA x, y : TLCEval(x \o y), <<>>, t)
Mem(k) == [x \in 1..k |-> (10 * x + (x \div 256) * 3 + 1) % 256]
Dat(n, z) == [x \in 1..n |-> 100 + 20 * z + x]
Lo(k) == <<"lo", k>>
Op(f, o, n, d, s) == [f |-> f, o |-> o, n |-> n, d |-> d, s |-> s]
Z == Lo(0)
Case(m, ops) == [m |-> m, ops |-> ops]
ReadAll(k) == Op("read", Z, k, <<>>, Z)
Top == IF Deep THEN 9 ELSE 6
Offs(k) == [x \in 1..(k + 3) |-> Lo(x - 1)] \o [x \in 1..10 |-> <<"top", x - 1>>] \o <<<<"half", 0>>, <<"half", 1>>, <<"half", -1>>, <<"half", 3>>>>
Sz(k) == [x \in 1..(k + 3) |-> x - 1]
All(k) == Cat([i \in 1..Len(Offs(k)) |-> LET o == Offs(k)[i] IN
   Cat([j \in 1..(k + 3) |-> <<Case(Mem(k), <<Op("read", o, j - 1, <<>>, Z)>>), Case(Mem(k), <<Op("write", o, 0, Dat(j - 1, 0), Z), ReadAll(k)>>),
                               Case(Mem(k), <<Op("cb", o, 0, Dat(j - 1, 1), Lo(j - 1)), ReadAll(k)>>)>>])
   \o Cat([j \in 1..Len(Offs(k)) |-> <<Case(Mem(k), <<Op("cb", o, 0, Dat(2, 1), Offs(k)[j]), ReadAll(k)>>)>>])
   \o <<Case(Mem(k), <<Op("u16", o, 0, <<>>, Z), Op("u32", o, 0, <<>>, Z), Op("own16", o, 0, <<>>, Z), Op("own32", o, 0, <<>>, Z), Op("len", Z, 0, <<>>, Z)>>)>>])
\* histories of writes, callbacks and reads
Letters(k) == <<Op("write", Lo(0), 0, Dat(2, 0), Z), Op("write", Lo(1), 0, Dat(k - 1, 1), Z), Op("write", Lo(1), 0, Dat(k, 2), Z), Op("write", Lo(k), 0, <<>>, Z), Op("write", Lo(k + 1), 0, <<>>, Z),
   Op("cb", Lo(1), 0, Dat(1, 3), Lo(2)), Op("cb", Lo(0), 0, Dat(k, 4), Lo(k)), Op("cb", Lo(2), 0, Dat(1, 5), Lo(k)), Op("read", Lo(1), 2, <<>>, Z), Op("u16", Lo(k - 2), 0, <<>>, Z),
   Op("u32", Lo(k - 3), 0, <<>>, Z), Op("write", <<"top", 1>>, 0, Dat(3, 6), Z)>>
Hists(k) == LET L == Letters(k) W == 1..Len(L) ws == TLCEval(SetToSeq(IF Deep THEN W \X W \X W ELSE W \X W)) IN
   [i \in 1..Len(ws) |-> Case(Mem(k), [j \in 1..Len(ws[i]) |-> L[ws[i][j]]] \o <<ReadAll(k)>>)]
Large == Cat([i \in 1..6 |-> LET o == <<0, 1, 4094, 4095, 4096, 4097>>[i] IN
   [n \in 1..4 |-> Case(Mem(4096), <<Op("write", Lo(o), 0, Dat(n - 1, 0), Z), Op("u16", Lo(4094), 0, <<>>, Z), Op("u32", Lo(4092), 0, <<>>, Z), Op("u32", Lo(4093), 0, <<>>, Z)>>)]])
\* every offset x every size on one larger memory
Sweeps == LET len == IF Deep THEN 1100 ELSE 530 fs == <<"read", "write", "cb", "u16", "u32", "own16", "own32">> IN
   [i \in 1..Len(fs) |-> [f |-> fs[i], len |-> len, tops |-> <<len + 3, len + 5>>]]
\* offsets and sizes beyond 16 bits
Beyond == LET fs == <<"read", "write", "cb", "u16", "u32", "own16", "own32">> lens == <<65535, 65536, 65541, 131080>>
           S == {0, 1, 2, 255, 256, 32767, 32768} \cup (65530..65546) \cup {65791, 65792, 131071, 131072} IN
   Cat([j \in 1..Len(lens) |-> LET len == lens[j] os == SetToSeq(S \cup ((len - 5)..(len + 3))) ns == SetToSeq(S \cup {len - 1, len, len + 1}) IN
      [i \in 1..Len(fs) |-> [f |-> fs[i], len |-> len, offs |-> os, sizes |-> IF fs[i] \in {"read", "write", "cb"} THEN ns ELSE <<0>>]]])
Cases == Beyond \o Sweeps \o Cat([k \in 1..(Top + 1) |-> All(k - 1)]) \o Hists(4) \o Hists(5) \o Large
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
