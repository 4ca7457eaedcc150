------------------------------ MODULE MC_Const ------------------------------
(* The table of constants is self-consistent: names are unique, values within a
   type are distinct (except where Part 2 gives one value two names), interface
   types use their algorithm's identifier, attribute flags are single bits.   *)
EXTENDS ConstTable, FiniteSets
VARIABLE i
Init == i \in 1..Len(Table)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
E == Table[i]
Val(e) == <<e[3], e[4]>>
Unique == \A j \in 1..Len(Table) : (Table[j][1] = E[1] /\ Table[j][2] = E[2]) => j = i
Aliases == {"DigestSize", "CMD_CODE", "TpmRc"}
Distinct == E[1] \notin Aliases => \A j \in 1..Len(Table) : (Table[j][1] = E[1] /\ Val(Table[j]) = Val(E)) => j = i
AlgTypes == {"TpmiAlgHash", "TpmiAlgKdf", "TpmiAlgPublic", "TpmiAlgSymMode", "TpmiAlgSymObject", "TpmiAlgKeyedhashScheme", "TpmiAlgRsaScheme",
             "TpmiAlgSigScheme", "TpmiAlgEccScheme", "TpmiAlgAsymScheme"}
SameAs(t) == \E j \in 1..Len(Table) : Table[j][1] = t /\ Table[j][2] = E[2] /\ Val(Table[j]) = Val(E)
Algs == /\ E[1] \in AlgTypes => SameAs("TpmAlgId")
        /\ E[1] \in {"TpmiStAttest", "TpmiStCommandTag"} => SameAs("TpmSt")
        /\ E[1] = "tpm2.TpmiAlgHash" => SameAs("Alg")
        /\ E[1] = "Alg" => \E j \in 1..Len(T_TpmAlgId) : Val(T_TpmAlgId[j]) = Val(E)
        /\ E[1] = "CMD_CODE" => \E j \in 1..Len(T_TpmCc) : Val(T_TpmCc[j]) = Val(E)
Pow2 == {2^b : b \in 0..15}
Flags == E[1] \in {"TpmaLocality", "TpmaNv", "TpmaObject", "TpmaAlgorithm", "TpmaSession", "TpmaCc"} =>
           \/ E[3] = 0 /\ E[4] \in Pow2
           \/ E[4] = 0 /\ E[3] \in Pow2
Handles == /\ E[1] = "TpmHandle" => E[3] = \h40 * 256
           /\ E[1] \in {"TpmCc"} => E[3] = 0 /\ E[4] \in 287..408
=============================================================================
