------------------------------ MODULE MC_List ------------------------------
(* All histories of one list of capacity Cap: what it exposes is exactly what
   was successfully put in.                                                   *)
EXTENDS ListModel
CONSTANTS Cap, Elems, Extra
VARIABLES held, put, res, tries
vars == <<held, put, res, tries>>
Seqs == UNION {[1..n -> Elems] : n \in 0..Cap+1}
Init == held = <<>> /\ put = <<>> /\ res = "ok" /\ tries = 0
DoNew == tries = 0 /\ \E s \in Seqs : LET n == New(Cap, s) IN
            /\ res' = n.r /\ held' = n.s /\ put' = (IF n.ok THEN s ELSE <<>>) /\ tries' = tries + 1
DoAdd == tries < Cap + Extra /\ \E x \in Elems : LET n == Add(Cap, held, x) IN
            /\ res' = n.r /\ held' = n.s /\ tries' = tries + 1
            /\ put' = IF n.r = "ok" THEN Append(put, x) ELSE put
DoRt == held' = RoundTrip(held).s /\ res' = "ok" /\ UNCHANGED <<put, tries>>
Next == DoNew \/ DoAdd \/ DoRt
Spec == Init /\ [][Next]_vars
Bounded == Len(held) <= Cap
Exact == held = put
RefuseOnlyWhenFull == [][(DoAdd /\ res' = "size") => Len(held) = Cap /\ held' = held]_vars
=============================================================================
