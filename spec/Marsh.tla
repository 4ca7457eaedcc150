------------------------------- MODULE Marsh -------------------------------
(* Crate tpm2: encoding into / decoding from plain slices under a set of
   supported hash algorithms.  A set is a bit mask over Known.               *)
EXTENDS Integers, Sequences, FiniteSets
Known == << [id |-> 4, n |-> 20], [id |-> 11, n |-> 32], [id |-> 12, n |-> 48], [id |-> 13, n |-> 64],      \* SHA-1, SHA-256, SHA-384, SHA-512
            [id |-> 18, n |-> 32], [id |-> 39, n |-> 32], [id |-> 40, n |-> 48], [id |-> 41, n |-> 64] >>  \* SM3, SHA3-256, SHA3-384, SHA3-512
K == 1..8
\* a tagged digest of these can be represented; the others may be added to the type one day
Tagged == 1..4
In(set, k) == (set \div (2^(k-1))) % 2 = 1
KnownId(id) == \E k \in K : Known[k].id = id
KOf(id) == CHOOSE k \in K : Known[k].id = id
MaxDigest(set) == LET s == {Known[k].n : k \in {j \in K : In(set, j)}} IN
                  IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
BE2(v) == <<v \div 256, v % 256>>

Err == [ok |-> FALSE]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
DecHa(set, s) ==
  IF Len(s) < 2 THEN Err
  ELSE LET id == s[1] * 256 + s[2] r == Drop(s, 2) IN
       IF ~KnownId(id) THEN Err
       ELSE LET k == KOf(id) IN
            IF ~In(set, k) \/ Len(r) < Known[k].n THEN Err
            ELSE [ok |-> TRUE, alg |-> id, d |-> Take(r, Known[k].n), rest |-> Drop(r, Known[k].n)]
\* whether a decode is required to accept (a supported hash without tagged form may be refused)
MustHa(s) == Len(s) >= 2 /\ KnownId(s[1] * 256 + s[2]) /\ KOf(s[1] * 256 + s[2]) \in Tagged
EncHa(set, alg, d) == IF KnownId(alg) /\ In(set, KOf(alg)) THEN BE2(alg) \o d ELSE <<>>    \* <<>>: refused
SizeHa(alg) == 2 + Known[KOf(alg)].n
\* writing bytes w into a buffer of len bytes
Fits(w, len) == Len(w) <= len
After(buf, w) == Take(buf, Len(w)) = w /\ \A i \in (Len(w)+1)..Len(buf) : buf[i] = 90
=============================================================================
