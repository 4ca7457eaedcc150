----------------------------- MODULE ListModel -----------------------------
(* A typed list: a sequence of at most Cap elements.  An operation maps the
   sequence held to the sequence held afterwards and a result.               *)
EXTENDS Integers, Sequences, SequencesExt
New(cap, s)    == IF Len(s) > cap THEN [r |-> "size", s |-> <<>>, ok |-> FALSE] ELSE [r |-> "ok", s |-> s, ok |-> TRUE]
Add(cap, s, x) == IF Len(s) >= cap THEN [r |-> "size", s |-> s] ELSE [r |-> "ok", s |-> Append(s, x)]
RoundTrip(s)   == [r |-> "ok", s |-> s]        \* encode, then continue with what was decoded
=============================================================================
