------------------------------ MODULE GenHandle ------------------------------
\* attribute words and the index types set on them in turn
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT Deep
Pow(b) == 2^b
Words == {<<0, 0>>, <<65535, 65535>>, <<43690, 43690>>, <<21845, 21845>>} \cup {<<Pow(b), 0>> : b \in 0..15} \cup {<<0, Pow(b)>> : b \in 0..15}
         \cup {<<65535 - Pow(b), 65535>> : b \in 0..15} \cup {<<65535, 65535 - Pow(b)>> : b \in 0..15}
         \cup {<<(i * 40503) % 65536, (i * 30011 + 7) % 65536>> : i \in 0..(IF Deep THEN 2000 ELSE 60)}
         \cup {<<(i * 257) % 65536, 16 * (i % 16) + (i % 7) + 256 * i>> : i \in 0..255}
Each == [t \in 1..256 |-> t - 1]
Pairs == LET f(i) == ((i * 37) + (i \div 16)) % 256 IN [i \in 1..256 |-> f(i)]
Cases == LET s == TLCEval(SetToSeq(Words)) IN [i \in 1..Len(s) |-> [v |-> s[i], ts |-> IF i % 4 = 0 THEN Pairs ELSE IF i % 4 = 1 THEN <<0, 15, 1, 8, 9, 4, 2, 0>> ELSE IF i % 4 = 2 THEN <<(i % 256)>> ELSE Each]]
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
