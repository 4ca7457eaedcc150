------------------------------ MODULE MC_Codes ------------------------------
(* All 4096 codes: every code belongs to one class, and building and taking
   apart a qualified code are inverse to each other.                         *)
EXTENDS Codes
VARIABLES v, on, n
Init == v \in 0..4095 /\ on = "none" /\ n = 0
Next == /\ on = "none"
        /\ Fmt1(v) /\ Base(v) = v
        /\ on' \in {"Handle", "Parameter", "Session"}
        /\ n' \in 1..MaxNo(on')
        /\ v' = Qual(v, on', n')
Spec == Init /\ [][Next]_<<v, on, n>>
Range == v \in 0..4095
Inverse == on # "none" => Item(v) = [k |-> on, n |-> n]
KeepsBase == on # "none" => /\ Base(v) % 64 = v % 64
                            /\ Fmt1(v)
                            /\ ~Warning(v)
Unqualified == (Fmt1(v) /\ Base(v) = v) => (on = "none" /\ Item(v) = None)
\* nothing but the construction yields a numbered item
OnlyQualified == (Item(v) # None) => \E q \in {"Handle", "Parameter", "Session"} : \E k \in 1..MaxNo(q) : v = Qual(Base(v), q, k)
Classes == \/ Fmt1(v) /\ ~Warning(v)
           \/ ~Fmt1(v) /\ Item(v) = None
NamedOk == /\ \A a, b \in DOMAIN Named : Named[a] = Named[b] => a = b
           /\ \A a \in DOMAIN Named : Warning(Named[a]) <=> a \in {"ContextGap", "ObjectMemory", "SessionMemory", "Memory"}
           /\ \A a \in DOMAIN Named : Fmt1(Named[a]) <=> a \in {"Asymmetric", "Value", "Size", "Selector"}
           /\ \A i \in 1..3 : \A a \in DOMAIN LayerNo : LayerOf(LayerCode(i, a)) = i
           /\ \A i, j \in 1..3 : \A a, b \in DOMAIN LayerNo : LayerCode(i, a) = LayerCode(j, b) => (i = j /\ a = b)
ASSUME NamedOk
=============================================================================
