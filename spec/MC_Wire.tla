------------------------------ MODULE MC_Wire ------------------------------
(* Exhaustive check of the wire grammar itself: input arrives byte by byte, and
   in every state the decoder is total, reads only its own prefix, and is the
   exact inverse of the encoder - for small types that use every constructor. *)
EXTENDS Wire
CONSTANTS MaxLen, Alpha

Small == <<
  U(2), Raw(3), B2(2), Lst(1, 2, U(1)), Lst(2, 2, B2(1)), BLst(1, 2, "c", "d"), Arr(2, U(1)),
  St(<< <<"a", U(1)>>, <<"b", B2(1)>> >>),
  Un(1, <<V("A", 1, <<U(1)>>), V("B", 2, <<B2(1), U(1)>>), V("C", 3, <<>>)>>),
  Un(2, <<V("A", 1, <<Lst(1, 1, U(1))>>), V("B", 258, <<>>)>>),
  Spl(<< <<"x", U(1)>> >>, "u", 1, << <<"y", B2(1)>> >>, <<V("A", 1, <<U(1)>>), V("B", 2, <<>>)>>),
  Opq(St(<< <<"a", U(1)>>, <<"b", U(1)>> >>)),
  Lst(1, 2, Un(1, <<V("A", 1, <<U(1)>>), V("B", 2, <<>>)>>)) >>

VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Alpha : b' = Append(b, x)
Spec == Init /\ [][Next]_b

D(t) == Decode(t, b)
RoundTrip == \A j \in 1..Len(Small) : LET r == D(Small[j]) IN
  IsOk(r) => /\ r.i <= Len(b)
             /\ Encode(Small[j], r.l) = SubSeq(b, 1, r.i)
             /\ r.i <= MaxEnc(Small[j])
\* more input never changes a value, and a strict prefix of a value is never one
PrefixOnly == \A j \in 1..Len(Small) : LET r == D(Small[j]) IN
  IsOk(r) => \A k \in 0..Len(b) : LET q == Dec(Small[j], b, 0, k, "") IN
     IF k >= r.i THEN q = r ELSE ~IsOk(q) /\ q.e = {"End"}
\* a fault that more input cannot cure stays, whatever follows
Permanent == \A j \in 1..Len(Small) : LET r == D(Small[j]) IN
  r.e \cap {"Sel", "ArrLen"} # {} => \A k \in 0..Len(b) : ~IsOk(Dec(Small[j], b, 0, k, ""))
Kinds == \A j \in 1..Len(Small) : D(Small[j]).e \subseteq {"End", "Sel", "ArrLen"}
=============================================================================
