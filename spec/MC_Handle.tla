------------------------------ MODULE MC_Handle ------------------------------
(* The interval cover says the same as the classification, for every high half
   and the low halves at which something can change; setting an index type is
   a field update: last write wins, other bits stay.                          *)
EXTENDS Handle
CONSTANTS Lows, Highs
HighsQ == {m * 256 + d : m \in 0..255, d \in {0, 1, 255}}
HighsD == 0..65535
VARIABLES w, a, t
Fs == {"nvindex", "is_nv", "is_hmac", "is_policy", "authsession"}
Le(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Init == w \in {<<h, l>> : h \in Highs, l \in Lows} /\ a = w /\ t = -1
Next == w[1] \in {0, 257, 65535} /\ t' \in 0..255 /\ a' = SetT(a, t') /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, a, t>>
CoverOk == t = -1 => \A f \in Fs : LET c == Cover(f) IN
  \E k \in 1..Len(c) : Le(c[k].lo, w) /\ Le(w, c[k].hi) /\ c[k].in = Accepts(f, w)
Exclusive == ~(IsNv(w) /\ (IsHmac(w) \/ IsPolicy(w))) /\ ~(IsHmac(w) /\ IsPolicy(w))
FieldOk == t # -1 => /\ GetT(a) = t % 16
                     /\ a[1] = w[1] /\ a[2] \div 256 = w[2] \div 256 /\ a[2] % 16 = w[2] % 16
                     /\ GetT(FromT(t)) = t % 16 /\ SetT(Zero, t) = FromT(t)
=============================================================================
