------------------------------ MODULE TcpTrace ------------------------------
(* Walks a logged history: interprets every operation on what the simulator
   sent, and compares results and received bytes with the protocol.            *)
EXTENDS Tcp, TraceBase
Ops == Line.ops
\* everything the simulator sends on port q from the exchanges of the script
Stream(q) == FoldLeft(LAMBDA a, o : FoldLeft(LAMBDA b, x : IF x.port = q THEN FoldLeft(LAMBDA c, d : c \o d, b, x.chunks) ELSE b, a, o.x), <<>>, Ops)
Ended(o, q) == \E i \in 1..Len(o.x) : o.x[i].port = q /\ o.x[i].end # "keep"
Dropped(o) == \E i \in 1..Len(o.x) : o.x[i].end \in {"drop", "reset"}
Closed(o, q) == \E i \in 1..Len(o.x) : o.x[i].port = q /\ o.x[i].end = "drop"
Reset(o, q) == \E i \in 1..Len(o.x) : o.x[i].port = q /\ o.x[i].end = "reset"
(* one operation: walks its program until the first failure.
   w: [tpm, plat: incoming streams; st, sp: bytes sent so far; loc; dead: ports whose
   connection the peer has reset, where every later exchange fails; gone: ports it has
   closed, where sending may go unnoticed but no answer comes; ok]                  *)
Walk1(w, o, res) ==
  LET p == TLCEval(Prog(o, w.loc))
      f == FoldLeft(LAMBDA a, i :
             IF a.k # {"ok"} THEN a
             ELSE IF p[i].port \in w.dead THEN [a EXCEPT !.k = AnyErr]
             ELSE IF p[i].port \in w.gone /\ (p[i].recv # "none" \/ res.r # "ok") THEN [a EXCEPT !.k = AnyErr]
             ELSE LET x == p[i]
                      r == TLCEval(Answer(x.recv, o.cap, IF x.port = "tpm" THEN a.tpm ELSE a.plat)) IN
                  [a EXCEPT !.k = IF r.k = {"UnexpectedEof"} /\ Dropped(o) THEN AnyErr ELSE r.k, !.d = @ \o r.d,
                            !.tpm = IF x.port = "tpm" THEN r.s ELSE @, !.plat = IF x.port = "plat" THEN r.s ELSE @,
                            !.st = IF x.port = "tpm" THEN @ \o x.send ELSE @, !.sp = IF x.port = "plat" THEN @ \o x.send ELSE @],
             [k |-> {"ok"}, d |-> <<>>, tpm |-> w.tpm, plat |-> w.plat, st |-> w.st, sp |-> w.sp], [i \in 1..Len(p) |-> i])
  IN [tpm |-> f.tpm, plat |-> f.plat, st |-> f.st, sp |-> f.sp,
      dead |-> w.dead \cup {q \in {"tpm", "plat"} : Reset(o, q)},
      gone |-> w.gone \cup {q \in {"tpm", "plat"} : Closed(o, q)},
      loc |-> IF o.f = "locality" THEN o.a[1] ELSE w.loc,
      ok |-> w.ok /\ res.r \in f.k /\ (res.r = "ok" => res.b = f.d)]
Final == FoldLeft(LAMBDA w, i : Walk1(w, Ops[i], Line.rs[i]),
                  [tpm |-> Stream("tpm"), plat |-> Stream("plat"), st |-> <<>>, sp |-> <<>>, loc |-> 0, dead |-> {}, gone |-> {}, ok |-> TRUE], [i \in 1..Len(Ops) |-> i])
Rx(p) == FoldLeft(LAMBDA a, x : a \o x.got, <<>>, p.x) \o p.tail
HasDrop(q) == \E i \in 1..Len(Ops) : Closed(Ops[i], q) \/ Reset(Ops[i], q)
Same(q, sent, rx) == IF HasDrop(q) THEN Len(rx) <= Len(sent) /\ rx = SubSeq(sent, 1, Len(rx)) ELSE rx = sent
Patient(p) == \A i \in 1..Len(p.x) : ~p.x[i].early /\ p.x[i].extra = 0
Connected == Line.connect \notin {"notpm", "noplat"}
LineOk == IF ~Connected THEN Line.cr \notin {"ok", "panic"}
          ELSE /\ Line.cr = "ok" /\ Len(Line.rs) = Len(Ops) /\ Line.tpm.conn /\ Line.plat.conn
               /\ Patient(Line.tpm) /\ Patient(Line.plat)
               /\ LET f == TLCEval(Final) IN f.ok /\ Same("tpm", f.st, Rx(Line.tpm)) /\ Same("plat", f.sp, Rx(Line.plat))
(* A sweep: for every length n of a range, one command of n bytes that gets a response
   of m(n) bytes into a buffer of m(n) + slack bytes, all on one connection.  It is logged
   as the maximal runs of lengths with the same outcome relative to n.  All of them must
   be the outcome the walk above prescribes.                                      *)
SweepOut == [r |-> IF Line.sweep.slack < 0 THEN "InvalidInput" ELSE "ok", code |-> Code(8), loc |-> Line.sweep.loc, len |-> 0, body |-> TRUE,
             out |-> IF Line.sweep.slack < 0 THEN "none" ELSE "same"]
SweepOk == /\ Line.cr = "ok" /\ Len(Line.runs) = 1
           /\ Line.runs[1].from = Line.sweep.from /\ Line.runs[1].to = Line.sweep.to
           /\ \A f \in DOMAIN SweepOut : Line.runs[1].o[f] = SweepOut[f]
           /\ Line.tail = 0
(* One quantity varied: every run has the outcome of its operation.  When the last
   acknowledgement varies (or is the refused one) the operation fails unless it is zero;
   when it varies before the end of the operation, zero is not among its values.      *)
VaryOut(o) == LET bad == Line.vary.bad \/ (Line.vary.what = "ack" /\ ~o.zero) IN
  /\ o.sent /\ o.r = (IF bad THEN "InvalidData" ELSE "ok") /\ o.out = (IF bad THEN "none" ELSE "same")
VaryOk == LET n == Len(Line.varied) IN
  /\ Line.cr = "ok" /\ Line.tail = 0 /\ n > 0 /\ Line.varied[1].from = Line.vary.from /\ Line.varied[n].to = Line.vary.to
  /\ \A i \in 1..n : VaryOut(Line.varied[i].o) /\ (i > 1 => Line.varied[i].from = Line.varied[i - 1].to + 1)
Inv == Judge(IF "varied" \in DOMAIN Line THEN VaryOk ELSE IF "runs" \in DOMAIN Line THEN SweepOk ELSE LineOk, "tcp")
=============================================================================
