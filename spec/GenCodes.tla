------------------------------ MODULE GenCodes ------------------------------
\* raw response values: all 12-bit codes, each layer, all single bits, boundaries, and a spread of 32-bit values
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT Deep
Pow(b) == 2^b
V(hi, lo) == [v |-> <<hi, lo>>]
Lows == {i : i \in 0..4095} \cup {4096 * k + i : k \in 1..15, i \in {0, 1, 2, 21, 128, 132, 256, 2308, 4095}}
Bits == {V(0, Pow(b)) : b \in 0..15} \cup {V(Pow(b), 0) : b \in 0..15} \cup {V(65535 - Pow(b), 65535) : b \in 0..15} \cup {V(65535, 65535 - Pow(b)) : b \in 0..15}
Spread == {V((i * 40503) % 65536, (i * 30011 + 7) % 65536) : i \in 0..(IF Deep THEN 20000 ELSE 500)}
Cases == SetToSeq({V(0, x) : x \in Lows} \cup Bits \cup {V(65535, 65535), V(32767, 65535), V(32768, 0)} \cup Spread)
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
