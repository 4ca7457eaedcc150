----------------------------- MODULE BufferTrace -----------------------------
EXTENDS Buffer, TraceBase, SequencesExt
Walk == FoldLeft(LAMBDA a, op : IF ~a.ok THEN a
                                ELSE LET e == Effect(a.m, op) IN [ok |-> e.ok /\ op.after = e.m, m |-> e.m],
                 [ok |-> TRUE, m |-> Line.m], Line.ops)
\* a sweep: Line.rows[o + 1] are the runs of sizes with equal observation at offset o
Ok1 == IF Line.f \in {"write", "cb"} THEN "ok/put" ELSE "ok/same"
Run1(a, z, o) == [lo |-> a, hi |-> z, o |-> o]
Row(o) == LET top == Line.tops[2] room == Line.len - o IN
  IF Line.f \in {"read", "write", "cb"}
  THEN IF room < 0 THEN <<Run1(0, top, "err/same")>>
       ELSE IF room >= top THEN <<Run1(0, top, Ok1)>>
       ELSE <<Run1(0, room, Ok1), Run1(room + 1, top, "err/same")>>
  ELSE <<Run1(0, 0, IF room >= (IF Line.f \in {"u16", "own16"} THEN 2 ELSE 4) THEN Ok1 ELSE "err/same")>>
SweepOk == Len(Line.rows) = Line.tops[1] + 1 /\ \A o \in 0..Line.tops[1] : Line.rows[o + 1] = Row(o)
\* chosen offsets and sizes
FarOk == Line.empty = ToString(Line.len) \o " false false" /\ \A x \in 1..Len(Line.offs), y \in 1..Len(Line.sizes) :
  LET n == CASE Line.f \in {"read", "write", "cb"} -> Line.sizes[y] [] Line.f \in {"u16", "own16"} -> 2 [] OTHER -> 4 IN
  Line.obs[x][y] = IF Line.offs[x] + n <= Line.len THEN Ok1 ELSE "err/same"
Inv == Judge(IF "obs" \in DOMAIN Line THEN FarOk ELSE IF "rows" \in DOMAIN Line THEN SweepOk ELSE Walk.ok, "buffer")
=============================================================================
