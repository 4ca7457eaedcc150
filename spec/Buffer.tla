------------------------------- MODULE Buffer -------------------------------
(* A platform buffer: random-access memory m.  Offsets and sizes are <<base, k>>:
   <<"lo", k>> is k, <<"top", k>> lies k below the largest machine word and
   <<"half", k>> k below half of it, far beyond every buffer.                  *)
EXTENDS Integers, Sequences
Far(x) == x[1] # "lo"
Fits(m, o, n) == ~Far(o) /\ o[2] + n <= Len(m)
Window(m, o, n) == SubSeq(m, o[2] + 1, o[2] + n)
Put(m, o, d) == [x \in 1..Len(m) |-> IF x > o[2] /\ x <= o[2] + Len(d) THEN d[x - o[2]] ELSE m[x]]
Patch(w, d) == [x \in 1..Len(w) |-> IF x <= Len(d) THEN d[x] ELSE w[x]]
Width(op) == CASE op.f \in {"u16", "own16"} -> 2 [] op.f \in {"u32", "own32"} -> 4 [] op.f = "read" -> op.n
\* the observation op made on memory m, and the memory afterwards
Effect(m, op) ==
  CASE op.f \in {"read", "u16", "u32", "own16", "own32"} ->
         LET ok == Fits(m, op.o, Width(op)) IN
         [ok |-> IF ok THEN op.r = "ok" /\ op.got = Window(m, op.o, Width(op))
                 ELSE op.r = "err" /\ (op.f = "read" => op.got = [x \in 1..op.n |-> 165]),   \* the destination keeps what it held
          m |-> m]
    [] op.f = "write" ->
         LET ok == Fits(m, op.o, Len(op.d)) IN
         [ok |-> op.r = (IF ok THEN "ok" ELSE "err"), m |-> IF ok THEN Put(m, op.o, op.d) ELSE m]
    [] op.f = "cb" ->
         LET ok == ~Far(op.s) /\ Fits(m, op.o, op.s[2])
             w == IF ok THEN Window(m, op.o, op.s[2]) ELSE <<>> IN
         [ok |-> IF ok THEN op.r = "ok" /\ op.called = 1 /\ op.win = op.s[2] /\ op.got = w
                 ELSE op.r = "err" /\ op.called = 0,
          m |-> IF ok THEN Put(m, op.o, Patch(w, op.d)) ELSE m]
    [] op.f = "len" -> [ok |-> op.r = "ok" /\ op.got = <<Len(m), IF Len(m) = 0 THEN 1 ELSE 0, IF Len(m) = 0 THEN 1 ELSE 0>>, m |-> m]
=============================================================================
