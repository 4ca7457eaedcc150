------------------------------ MODULE GenMarsh ------------------------------
EXTENDS Marsh, SequencesExt, TLC, Json, IOUtils
CONSTANT Deep
Cat(ss) == LET t == TLCEval(ss) IN FoldLeft(LAMBDA x, y : TLCEval(x \o y), <<>>, t)
Pat(n, s) == [i \in 1..n |-> (i * 31 + s * 17 + 5) % 256]
Sets == IF Deep THEN [i \in 1..256 |-> i - 1]
        ELSE <<0, 255>> \o [b \in 1..8 |-> 2^(b-1)] \o [b \in 1..8 |-> 255 - 2^(b-1)]
\* every known identifier, its neighbours and byte swaps
Ids == <<4, 11, 12, 13, 18, 39, 40, 41, 0, 1, 3, 5, 10, 14, 16, 65535, 1024, 2816, 260, 267>>
Decs == Cat([s \in 1..Len(Sets) |-> [i \in 1..Len(Ids) |-> [op |-> "dec", set |-> Sets[s], in |-> BE2(Ids[i]) \o Pat(IF i <= 8 THEN Known[i].n + 3 ELSE 66, i + s)]]])
All == [i \in 1..256 |-> i - 1]
Lens(n) == [i \in 1..(n + 5) |-> i - 1]
Encs == Cat([k \in 1..4 |-> << [op |-> "enc", alg |-> Known[k].id, d |-> Pat(Known[k].n, k), sets |-> All, lens |-> <<Known[k].n + 2, Known[k].n + 1, 80>>],
                               [op |-> "enc", alg |-> Known[k].id, d |-> Pat(Known[k].n, k + 9), sets |-> <<255, 2^(k-1), 255 - 2^(k-1), 0>>, lens |-> Lens(Known[k].n)] >>])
IdCases == Cat([s \in 1..Len(Sets) |-> [k \in 1..8 |-> [op |-> "id", i |-> k - 1, set |-> Sets[s]]]])
Vals(n) == << [i \in 1..n |-> 0], [i \in 1..n |-> 255], [i \in 1..n |-> IF i = 1 THEN 128 ELSE 0], [i \in 1..n |-> IF i = 1 THEN 127 ELSE 255],
              [i \in 1..n |-> i], [i \in 1..n |-> IF i = n THEN 1 ELSE 0], [i \in 1..n |-> IF i = n THEN 254 ELSE 255] >> \o [s \in 1..(IF Deep THEN 200 ELSE 12) |-> Pat(n, s)]
Ints == LET ts == << <<"u8", 1>>, <<"u16", 2>>, <<"u32", 4>>, <<"u64", 8>>, <<"i8", 1>>, <<"i16", 2>>, <<"i32", 4>>, <<"i64", 8>> >> IN
        Cat([i \in 1..8 |-> LET v == Vals(ts[i][2]) IN [j \in 1..Len(v) |-> [op |-> "int", t |-> ts[i][1], b |-> v[j]]]])
Arrs == LET ns == <<0, 1, 2, 7, 20, 32, 48, 64>> IN [i \in 1..8 |-> [op |-> "arr", b |-> Pat(ns[i], i)]]
Cases == Decs \o Encs \o IdCases \o Ints \o Arrs
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
