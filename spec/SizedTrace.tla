---------------------------- MODULE SizedTrace ----------------------------
EXTENDS TpmTypes, Sized, TraceBase
CapOf(t) == IF t = "UserTop" THEN 65535 ELSE TypeOf(t).cap
WrapOf(t) == (CHOOSE w \in ToSet(Wrapped) : w[1] = t)[2]
FbOk == LET f == FromBytes(CapOf(Line.t), Line.b) IN
  /\ Line.r = f.r
  /\ Line.r = "ok" => Line.sz = Len(f.b) /\ Line.out = f.b /\ Line.asref = f.b /\ Line.enc = BE(Len(f.b), 2) \o f.b
\* too long to be logged byte by byte: only the outcome
FbLong == Line.n > CapOf(Line.t) \/ Line.n > 65535
WrapOk == LET t == WrapOf(Line.t) d == Decode(t, Line.b) f == FromStruct(CapOf(Line.t), t, d.l) IN
  /\ IsOk(d) /\ d.i = Len(Line.b)                          \* the case itself is a structure
  /\ Line.r = "ok" /\ f.r = "ok"                            \* every structure fits
  /\ Line.sz = Len(f.b) /\ Line.out = f.b
  /\ Line.back = "ok" /\ Line.l = d.l /\ Line.eq
UnwrapOk == LET t == WrapOf(Line.t) d == ToStruct(t, Line.b) IN
  IF Len(Line.b) > CapOf(Line.t) THEN Line.r = "toolong"
  ELSE IF IsOk(d) THEN /\ Line.r # "panic"
                       /\ d.i = Len(Line.b) => Line.r = "ok" /\ Line.l = d.l
  ELSE Line.r \in d.e
\* every length up to Line.n, as maximal runs of equal outcomes relative to the length
AllOk == LET cap == CapOf(Line.t) top == Line.n IN
  Line.runs = <<[lo |-> 0, hi |-> IF top < cap THEN top ELSE cap, o |-> "ok+0baed"]>>
              \o (IF top > cap THEN <<[lo |-> cap + 1, hi |-> top, o |-> FromBytes(cap, [x \in 1..cap+1 |-> 0]).r]>> ELSE <<>>)
Inv == Judge(CASE Line.op = "fb" -> IF FbLong THEN Line.r = "ArrLen" ELSE FbOk
               [] Line.op = "all" -> AllOk
               [] Line.op = "def" -> Line.r = "ok" /\ Line.sz = 0 /\ Line.out = <<>> /\ Line.asref = <<>> /\ Line.enc = <<0, 0>>
               [] Line.op = "wrap" -> WrapOk
               [] Line.op = "unwrap" -> UnwrapOk, "sized")
\* the capacities the code declares are exactly those of the specification, and wrappers are large enough
CapsOk == /\ \A x \in 1..Len(TypeTable) : TypeTable[x][2].k = "b2" => Cap(TypeTable[x][1]) = TypeTable[x][2].cap
          /\ \A x \in 1..Len(Wrapped) : Cap(Wrapped[x][1]) >= MaxEnc(Wrapped[x][2]) \/ (PrintT(<<"CAP", Wrapped[x][1], Cap(Wrapped[x][1]), MaxEnc(Wrapped[x][2])>>) /\ FALSE)
CapsInv == l > 1 \/ Judge(CapsOk, "capacity")
=============================================================================
