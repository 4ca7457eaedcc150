------------------------------- MODULE Sized -------------------------------
(* A sized buffer (TPM2B): a byte sequence no longer than the capacity of its
   type, made from bytes or from a structure.  States are the content held;
   a refused creation leaves what was there.                                 *)
EXTENDS Wire

\* creation from bytes
Fits(cap, s) == Len(s) <= cap /\ Len(s) <= 65535
FromBytes(cap, s) == IF Fits(cap, s) THEN [r |-> "ok", b |-> s] ELSE [r |-> "ArrLen", b |-> <<>>]
\* creation from a structure given by its leaves, and back
FromStruct(cap, t, lv) == LET e == Encode(t, lv) IN
   IF Fits(cap, e) THEN [r |-> "ok", b |-> e] ELSE [r |-> "End", b |-> <<>>]
ToStruct(t, content) == Decode(t, content)
=============================================================================
