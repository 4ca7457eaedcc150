----------------------------- MODULE MC_Sized -----------------------------
(* Exhaustive histories of one sized buffer of capacity Cap that wraps a small
   structure: creation from bytes, from structures, and conversion back.      *)
EXTENDS Sized, FiniteSets
CONSTANTS Cap, Alpha, MaxLen
T == St(<< <<"a", U(1)>>, <<"b", B2(1)>> >>)
Bytes == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
VARIABLES held, given, res
vars == <<held, given, res>>
Init == held = <<>> /\ given = <<>> /\ res = "ok"
Make == \E s \in Bytes : LET f == FromBytes(Cap, s) IN
          given' = s /\ res' = f.r /\ held' = IF f.r = "ok" THEN f.b ELSE held
Wrap == \E s \in Bytes : LET d == Decode(T, s) IN
          /\ IsOk(d) /\ d.i = Len(s)
          /\ LET f == FromStruct(Cap, T, d.l) IN
             given' = s /\ res' = f.r /\ held' = IF f.r = "ok" THEN f.b ELSE held
Next == Make \/ Wrap
Spec == Init /\ [][Next]_vars
Bounded == Len(held) <= Cap
Exact == res = "ok" => held = given
RefusedIffTooLong == (res # "ok") <=> Len(given) > Cap
\* whatever is held: converting it to a structure and back reproduces the consumed part
Back == LET d == ToStruct(T, held) IN IsOk(d) => FromStruct(Cap, T, d.l) = [r |-> "ok", b |-> SubSeq(held, 1, d.i)]
\* a capacity of the largest encoding is enough for every structure
EveryFits == Cap >= MaxEnc(T) => \A s \in Bytes : LET d == Decode(T, s) IN IsOk(d) => FromStruct(Cap, T, d.l).r = "ok"
=============================================================================
