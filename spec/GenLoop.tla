------------------------------ MODULE GenLoop ------------------------------
EXTENDS Loop, Json, IOUtils
CONSTANT Deep
Cat(ss) == LET t == TLCEval(ss) IN FoldLeft(LAMBDA x, y : TLCEval(x \o y), <<>>, t)
Script(i, n0, rf, ff, ld) == [interval |-> i, need0 |-> n0, instf |-> FALSE, reseedf |-> rf, fillf |-> ff, lead |-> ld]
Calm == Script(-1, FALSE, <<>>, <<>>, <<>>)
Stp(cmd, p, ss, m, ip) == [cmd |-> cmd, p |-> p, sess |-> ss, m |-> m, inplace |-> ip]
GRS(n, m, ip) == Stp("GetRandomCmd", BE(n, 2), <<>>, m, ip)
H(sc, st) == [script |-> sc, steps |-> st]
Ns == IF Deep THEN [i \in 1..300 |-> i - 1] ELSE [i \in 1..70 |-> i - 1] \o <<100, 128, 255, 256, 257, 512, 1000>>
Sizes(n) == <<4096, 10 + n, 9 + n, 11 + n, 12 + n, 13 + n>>
Big == <<4084, 4086, 4087, 4096, 32768, 65535, 256 * 9>>
Randoms == Cat([i \in 1..Len(Ns) |-> Cat([s \in 1..6 |-> LET m == IF Sizes(Ns[i])[s] < 10 THEN 10 ELSE Sizes(Ns[i])[s] IN <<H(Calm, <<GRS(Ns[i], m, FALSE)>>), H(Calm, <<GRS(Ns[i], m, TRUE)>>)>>])])
  \o Cat([i \in 1..Len(Big) |-> <<H(Calm, <<GRS(Big[i], 4096, FALSE), GRS(3, 4096, FALSE)>>), H(Calm, <<GRS(Big[i], 4096, TRUE), GRS(Big[i], 64, TRUE)>>)>>])
\* random bytes that happen to look like a TPM2B
Lucky == Cat([i \in 1..8 |-> LET n == <<2, 3, 4, 34, 66, 67, 40, 20>>[i] IN [d \in 1..4 |-> H(Script(-1, FALSE, <<>>, <<>>, BE(n - 2 + (d - 2), 2)), <<GRS(n, 4096, d % 2 = 0), GRS(n, 4096, FALSE)>>)]])
Caps == Cat([c \in 1..11 |-> <<Stp("GetCapabilityCmd", BE(c - 1, 4) \o BE(256 + c, 4) \o BE(c * 3, 4), <<>>, 4096, c % 2 = 0)>>])
Others == Caps \o <<Stp("StartupCmd", <<0, 0>>, <<>>, 4096, FALSE), Stp("StartupCmd", <<0, 1>>, <<>>, 10, TRUE), Stp("StartupCmd", <<0, 1>>, <<>>, 4096, TRUE),
            Stp("PcrReadCmd", <<0,0,0,1, 0,11, 3, 1,2,3>>, <<>>, 4096, FALSE), Stp("PcrReadCmd", <<0,0,0,0>>, <<>>, 64, TRUE),
            Stp("DynB", <<>>, <<>>, 4096, FALSE), Stp("DynB", <<0, 5>>, <<>>, 4096, TRUE)>>
Flipped == Cat([i \in 1..32 |-> <<H(Calm, <<Stp(Flips[i - 1], BE(4, 2), <<>>, 4096, i % 2 = 0), GRS(4, 4096, FALSE), Stp(Flips[i - 1], BE(4, 2), <<>>, 40, i % 2 = 1)>>)>>])
Unknown == [i \in 1..Len(Others) |-> H(Calm, <<Others[i], GRS(4, 4096, TRUE), Others[((i * 5) % Len(Others)) + 1]>>)]
SessSets == << << <<>> >>, << <<1, 2, 3>> >>, << [i \in 1..64 |-> i] >>, << <<1>>, <<2>> >>, << <<>>, <<>>, <<>> >> >>
Sessed == Cat([s \in 1..5 |-> Cat([n \in 1..4 |-> LET c == <<0, 3, 9, 64>>[n] IN
   <<H(Calm, <<Stp("GetRandomCmd", BE(c, 2), SessSets[s], 4096, FALSE)>>), H(Calm, <<Stp("GetRandomCmd", BE(c, 2), SessSets[s], 4096, TRUE), GRS(5, 40, FALSE)>>),
     H(Calm, <<Stp("StartupCmd", <<0, 0>>, SessSets[s], 4096, n % 2 = 0)>>)>>])])
Faults == Cat([i \in 1..4 |-> LET iv == <<-1, 1, 2, 3>>[i] IN
  Cat([f \in 1..6 |-> LET rf == << <<>>, <<1>>, <<2>>, <<>>, <<>>, <<1, 2>> >>[f] ff == << <<>>, <<>>, <<>>, <<1>>, <<2, 3>>, <<2>> >>[f] IN
   [b \in 1..2 |-> H(Script(iv, b = 1, rf, ff, <<>>), <<GRS(5, 4096, FALSE), GRS(7, 40, TRUE), GRS(64, 40, FALSE), Others[1], GRS(0, 4096, FALSE), GRS(9, 4096, TRUE), GRS(1, 4096, FALSE)>>)]])])
Cases == Randoms \o Flipped \o Lucky \o Unknown \o Sessed \o Faults
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
