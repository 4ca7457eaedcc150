----------------------------- MODULE WireTrace -----------------------------
(* Judges the log of marshalling calls against the wire grammar.            *)
EXTENDS TpmTypes, TraceBase

IsCase == Line.op = "case"
T == TypeOf(Line.t)
D == Decode(T, Line.b)
OkN(n) == "ok" \o ToString(n)
At(lim) == Dec(T, Line.b, 0, lim, "")
\* acceptable outcomes of decoding the first k bytes
PreOutcome(k) == LET r == At(k) IN IF IsOk(r) THEN {OkN(r.i)} ELSE r.e
Contiguous(runs, last) ==
  /\ Len(runs) > 0 /\ runs[1].lo = 0 /\ runs[Len(runs)].hi = last
  /\ \A x \in 1..Len(runs)-1 : runs[x].hi + 1 = runs[x+1].lo
Used == Len(Line.b) - Len(Line.rest)

(* Sweeps over every size of a sized type, every count of a list, every value of a
   word: runs of equal outcomes [lo, hi, o], where o is an error kind or
   "ok" <bytes used relative to the announced length> "/" <e: encodes back exactly,
   also into an exactly fitting buffer, not into a shorter one> "/" <c: content as given>. *)
SpanT == IF T.k = "opq" THEN T.t ELSE T
\* the part of the range that is valid, the outcome there, and beyond
SpanTop == CASE Line.op = "sizes" -> SpanT.cap [] Line.op = "shorts" -> -1 [] Line.op = "counts" -> SpanT.cap
             [] Line.op \in {"vals", "words"} -> Line.runs[Len(Line.runs)].hi
SpanLast == CASE Line.op \in {"sizes", "shorts"} -> (IF Line.style = 0 THEN 65535 ELSE SpanT.cap + 299) [] Line.op = "counts" -> (IF SpanT.cw = 1 THEN 255 ELSE 65535)
             [] Line.op = "words" -> 9 * (Line.n \div 2) * 65536 - 1
             [] Line.op = "vals" -> (CASE Line.n = 0 -> 0 [] Line.n = 1 -> 255 [] Line.n = 2 -> 65535 [] Line.n = 3 -> 728 [] Line.n = 4 -> 6560
                                       [] Line.n = 5 -> 3124 [] Line.n = 6 -> 15624 [] OTHER -> 78124)
SpanPre == IF Line.op = "sizes" THEN "ok+2" ELSE "ok+0"
SpanBad == IF Line.op = "counts" THEN "ArrLen" ELSE "End"
IsSpan == Line.op \in {"sizes", "shorts", "counts", "vals", "words"}
SpanRuns(inside(_), outside(_)) ==
  /\ Contiguous(Line.runs, SpanLast)
  /\ \A x \in 1..Len(Line.runs) : LET r == Line.runs[x] IN
       /\ r.lo <= SpanTop => inside(r.o)
       /\ r.hi > SpanTop => outside(r.o)
AnyRun(o) == TRUE
---------------------------------------------------------------------------
\* C01: total, prefix-only decoding
C01Case ==
  /\ Line.r \notin {"panic", "badcursor"}
  /\ Line.r = "ok" => /\ Len(Line.rest) <= Len(Line.b)
                      /\ Line.rest = SubSeq(Line.b, Used + 1, Len(Line.b))
  /\ IsOk(D) => /\ Line.r = "ok"
                /\ Used = D.i
                /\ Line.l = D.l
                /\ \A x \in 1..(IF Line.deep THEN 8 ELSE 4) : Line.same[x]       \* an equal value whatever follows
  /\ Line.deep =>
       /\ Contiguous(Line.pre, Len(Line.b))
       /\ \A x \in 1..Len(Line.pre) : Line.pre[x].o # "panic"
       /\ IsOk(D) => \A x \in 1..Len(Line.pre) :
             LET r == Line.pre[x] IN
             IF r.lo >= D.i THEN r.o = OkN(D.i)
             ELSE r.hi < D.i /\ r.o \in {"End", "Sel", "ArrLen"}
C01Inv == Judge(CASE IsCase -> C01Case
                  [] IsSpan -> SpanRuns(LAMBDA o : o \in {SpanPre \o "/e/c", SpanPre \o "/-/c"}, LAMBDA o : o # "panic")
                  [] Line.op = "hunt" -> TRUE
                  [] Line.op = "var" -> Line.r # "panic"
                  [] Line.op = "range" -> Line.k # 3
                  [] Line.op = "sweep" -> \A x \in 1..Len(Line.runs) : Line.runs[x].o # "panic"
                  [] OTHER -> TRUE, "decode")

---------------------------------------------------------------------------
\* C02: exact layout, both directions
C02Case ==
  IsOk(D) =>
    /\ Line.r = "ok"
    /\ Line.l = D.l
    /\ Line.e = OkN(D.i)
    /\ SubSeq(Line.eb, 1, D.i) = SubSeq(Line.b, 1, D.i)
    /\ SubSeq(Line.eb, 1, D.i) = Encode(T, Line.l)
Vs == T.v
\* every value of the selector: exactly the specified ones select, each its own variant
SweepOk ==
  /\ Contiguous(SelectSeq(Line.runs, LAMBDA r : r.lo < Line.max), Line.max - 1)
  /\ \A y \in 1..Len(Vs) : \E x \in 1..Len(Line.runs) :
        LET r == Line.runs[x] IN r.lo = Vs[y].s /\ r.hi = r.lo /\ r.o = Vs[y].n
VarOk ==
  IsOk(D) => /\ Line.r = OkN(D.i)
             /\ Line.l = D.l
             /\ Line.e = "ok"
             /\ Line.eb = SubSeq(Line.b, T.sw + 1, D.i)
C02Inv == Judge(CASE IsCase -> C02Case
                  [] IsSpan -> SpanRuns(LAMBDA o : o = SpanPre \o "/e/c", AnyRun)
                  [] Line.op = "sweep" -> SweepOk
                  [] Line.op = "range" -> Line.lo = <<0, 0>> /\ Line.hi = <<65535, 65535>> /\ Line.k = 1 /\ Line.d = <<0, 0>>
                  [] Line.op = "var" -> VarOk
                  [] Line.op = "built" -> ~Line.over => Line.big = OkN(Len(Line.w)) /\ SubSeq(Line.bb, 1, Len(Line.w)) = Line.w
                                                         /\ IsOk(Decode(T, Line.w)) /\ Encode(T, Decode(T, Line.w).l) = Line.w
                  [] OTHER -> TRUE, "layout")

---------------------------------------------------------------------------
\* C03: output bounds
C03Case ==
  /\ Line.e # "panic"
  /\ Line.r = "ok" /\ Line.e # "none" /\ IsOk(D) =>
       /\ Line.e = OkN(D.i)
       /\ \A x \in D.i+1..Len(Line.eb) : Line.eb[x] = 165
  /\ Line.deep /\ IsOk(D) /\ Line.r = "ok" =>
       LET n == D.i IN
       /\ Contiguous(Line.far, 2) /\ Line.far[1].o = OkN(n) /\ Len(Line.far) = 1
       /\ Contiguous(Line.enc, n + 2)
       /\ \A x \in 1..Len(Line.enc) : LET r == Line.enc[x] IN
            IF r.lo >= n THEN r.o = OkN(n) ELSE r.hi < n /\ r.o = "End"
C03Built ==
  LET n == Len(Line.w) IN
  /\ \A x \in 1..Len(Line.enc) : Line.enc[x].o # "panic"
  /\ IF Line.over
     THEN /\ Line.big = "ArrLen"
          /\ \A x \in 1..Len(Line.enc) : Line.enc[x].o \in {"End", "ArrLen"}
     ELSE /\ Line.big = OkN(n)
          /\ \A x \in 1..Len(Line.enc) : LET r == Line.enc[x] IN
               IF r.lo >= n THEN r.o = OkN(n) ELSE r.hi < n /\ r.o = "End"
C03Inv == Judge(CASE IsCase -> C03Case
                  [] IsSpan -> SpanRuns(LAMBDA o : o \in {SpanPre \o "/e/c", SpanPre \o "/e/-"}, AnyRun)
                  [] Line.op = "built" -> C03Built
                  [] Line.op = "var" -> Line.e # "panic"
                  [] Line.op = "hunt" -> TRUE
                  [] OTHER -> TRUE, "bounds")

---------------------------------------------------------------------------
\* C04: malformed input
C04Case ==
  /\ ~IsOk(D) => Line.r \in D.e
  /\ Line.deep => \A x \in 1..Len(Line.pre) : LET r == Line.pre[x] IN
        r.o \in PreOutcome(r.lo) /\ r.o \in PreOutcome(r.hi)
C04Sweep ==
  \A x \in 1..Len(Line.runs) : LET r == Line.runs[x] IN
     IF r.lo < Line.max
     THEN \/ r.o = "Sel" /\ \A y \in 1..Len(Vs) : ~(r.lo <= Vs[y].s /\ Vs[y].s <= r.hi)
          \/ \E y \in 1..Len(Vs) : r.lo = Vs[y].s /\ r.hi = r.lo /\ r.o = Vs[y].n
     ELSE r.o = "Sel"
RcOf(e) == CASE e = "ArrLen" -> 149 [] e = "End" -> 2308 [] e = "Sel" -> 152
C04Inv == Judge(CASE IsCase -> C04Case
                  [] IsSpan -> SpanRuns(AnyRun, LAMBDA o : o = SpanBad)
                  [] Line.op = "sweep" -> C04Sweep
                  [] Line.op = "rc" -> Line.tpm = RcOf(Line.e) /\ Line.tss = RcOf(Line.e)
                  [] Line.op = "var" -> IF IsOk(D) THEN Line.r = OkN(D.i) ELSE Line.r \in D.e
                  [] OTHER -> TRUE, "malformed")
=============================================================================
