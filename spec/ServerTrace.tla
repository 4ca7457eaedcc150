---------------------------- MODULE ServerTrace ----------------------------
(* Judges logged histories of the server.  Each line: creation of one or two
   TPMs (the second executes the same requests in place) and the steps.        *)
EXTENDS Server, TraceBase, SequencesExt
Twin == Line.kind = "twin"
St0 == Line.steps
Created == Line.create.r = "ok"

\* C10: one executed request
ExecOk(req, m, x) ==
  /\ x.o = "ok" /\ x.ret <= m
  /\ m >= HDR =>
       \/ x.b = Answer(req, m, x.es) /\ x.ret = Len(x.b)
          /\ (Classify(req, m).k = "rand" /\ ~Failed(x.es) => Len(x.b) = HDR + Classify(req, m).n)
       \/ ~Plain(req) /\ IsErrResp(x.b) /\ x.ret = HDR
C10Line == /\ Line.create.r # "panic"
           /\ \A i \in 1..Len(St0) : /\ ExecOk(St0[i].req, St0[i].m, St0[i].sep)
                                     /\ Twin => ExecOk(St0[i].req, St0[i].m, St0[i].inp)
           /\ Created => Len(St0) = Line.n
\* a sweep: the class of the varied request at index i, as Classify; "free" where Plain leaves the answer open
Swept == Line.kind = "sweep"
At16(known, i, at) == SubSeq(known, at + 1, at + 2) = BE(i, 2)
Class(i) ==
  LET fit(c, m) == IF HDR + c > m THEN [k |-> "err", rc |-> Memory] ELSE [k |-> "rand", rc |-> 0]
      is(k, rc) == [k |-> k, rc |-> rc] IN
  CASE Line.vary = "count" -> fit(i, HDR + i + Line.m)
    [] Line.vary = "mem" -> fit(Line.c, i)
    [] Line.vary = "code" -> IF At16(GetRandom, i, Line.at) THEN is("rand", 0) ELSE is("err", CommandCode)
    [] Line.vary = "size" -> IF At16(BE(12, 4), i, Line.at) THEN is("rand", 0) ELSE is("err", CommandSize)
    [] Line.vary = "tag" -> IF BE(i, 2) = <<128, 1>> THEN is("rand", 0) ELSE is("free", 0)
    [] Line.vary = "reqlen" -> is("err", IF i < HDR THEN CommandSize ELSE CommandCode)
    [] Line.vary = "trail" -> IF i = 0 THEN is("rand", 0) ELSE is("free", 0)
    [] Line.vary = "rs" -> IF i = 12 THEN is("rand", 0) ELSE is("err", CommandSize)
\* Class is constant between these
Marks == {0, 1, 2, 9, 10, 11, 12, 13, 123, 379, 32769, Line.c + 9, Line.c + 10}
Points(r) == {r.lo, r.hi} \cup {x \in UNION {{y - 1, y, y + 1} : y \in Marks} : x >= r.lo /\ x <= r.hi}
SwExec(c, x) ==
  LET bad(rc) == x.bare /\ x.rc = rc IN
  /\ x.o = "ok" /\ x.fits /\ x.head
  /\ CASE c.k = "err" -> bad(c.rc)
       [] c.k = "rand" -> IF Failed(x.es) THEN bad(Failure) ELSE x.full /\ x.rc = 0
       [] c.k = "free" -> \/ x.bare /\ x.rc # 0
                          \/ IF Failed(x.es) THEN bad(Failure) ELSE x.full /\ x.rc = 0
SwSteps(P(_, _)) == \A j \in 1..Len(Line.runs) : LET r == Line.runs[j] n == Line.pre + 1 + Line.post IN
  /\ r.o.create.r = "ok" => Len(r.o.steps) = n
  /\ \A k \in 1..Len(r.o.steps) :
        IF k = Line.pre + 1 THEN \A i \in Points(r) : P(Class(i), r.o.steps[k]) ELSE P([k |-> "rand", rc |-> 0], r.o.steps[k])
Covered == /\ Line.runs # <<>> /\ Line.runs[1].lo = Line.lo /\ Line.runs[Len(Line.runs)].hi = Line.top
           /\ \A j \in 1..(Len(Line.runs) - 1) : Line.runs[j].hi + 1 = Line.runs[j + 1].lo
C10Sweep == /\ Covered /\ \A j \in 1..Len(Line.runs) : Line.runs[j].o.create.r # "panic"
            /\ SwSteps(LAMBDA c, s : SwExec(c, s.sep) /\ ("inp" \in DOMAIN s => SwExec(c, s.inp)))
C10Inv == Judge(IF Swept THEN C10Sweep ELSE C10Line, "answer")

\* C11: both ways agree
Visible(es) == SelectSeq(es, LAMBDA e : e.e # "need")
\* a recorded buffer: nothing is read from where something was written before
Clear(acc) == \A j \in 1..Len(acc) : acc[j].k = "r" /\ acc[j].ok =>
                 \A i \in 1..(j-1) : acc[i].k = "w" /\ acc[i].ok => acc[i].at + acc[i].n <= acc[j].at \/ acc[j].at + acc[j].n <= acc[i].at
C11Line == Twin => /\ Line.create.r = Line.createb.r
                   /\ \A i \in 1..Len(St0) : LET a == St0[i].sep b == St0[i].inp IN
                        /\ b.o # "panic" /\ a.o = b.o /\ a.ret = b.ret /\ a.b = b.b /\ Clear(b.acc)
                        /\ Visible(a.es) = Visible(b.es)
C11Sweep == Covered /\ \A j \in 1..Len(Line.runs) : LET o == Line.runs[j].o IN
              /\ o.create.r = o.createb.r
              /\ \A k \in 1..Len(o.steps) : o.steps[k].inp.o # "panic" /\ o.steps[k].same
C11Inv == Judge(IF Swept THEN C11Sweep ELSE C11Line, "in place")

\* C12: generator discipline over the whole history
Disc(cr, xs) ==
  LET g == Run(GNew(Line.lens[1], Line.lens[2]), cr.es \o FoldLeft(LAMBDA a, x : a \o x.es, <<>>, xs)) IN
  g.ok \/ (PrintT(<<"discipline", l, g.why>>) /\ FALSE)
CreateOk(cr) ==
  LET inst == SelectSeq(cr.es, LAMBDA e : e.e = "inst") IN
  /\ Len(inst) = 1
  /\ inst[1].ok <=> cr.r = "ok"
Payload(x) == IF Len(x.b) > HDR THEN SubSeq(x.b, HDR + 1, Len(x.b)) ELSE <<>>
OnlyOutput(x) == /\ Len(x.b) > HDR => Payload(x) = Outputs(x.es)
                 /\ Failed(x.es) => Len(x.b) <= HDR /\ SubSeq(x.b, 7, 10) # BE(0, 4)
C12Line == /\ CreateOk(Line.create) /\ Disc(Line.create, [i \in 1..Len(St0) |-> St0[i].sep])
           /\ \A i \in 1..Len(St0) : OnlyOutput(St0[i].sep)
           /\ Twin => /\ CreateOk(Line.createb) /\ Disc(Line.createb, [i \in 1..Len(St0) |-> St0[i].inp])
                      /\ \A i \in 1..Len(St0) : OnlyOutput(St0[i].inp)
SwOnly(x) == /\ x.pay # "other"
             /\ Failed(x.es) => x.pay = "none" /\ x.rc # 0
C12Sweep == Covered /\ \A j \in 1..Len(Line.runs) : LET o == Line.runs[j].o IN
              /\ CreateOk(o.create) /\ Disc(o.create, [k \in 1..Len(o.steps) |-> o.steps[k].sep])
              /\ CreateOk(o.createb) /\ Disc(o.createb, [k \in 1..Len(o.steps) |-> o.steps[k].inp])
              /\ \A k \in 1..Len(o.steps) : SwOnly(o.steps[k].sep) /\ SwOnly(o.steps[k].inp)
C12Inv == Judge(IF Swept THEN C12Sweep ELSE C12Line, "generator")
=============================================================================
