----------------------------- MODULE MarshTrace -----------------------------
EXTENDS Marsh, TraceBase
\* identifiers 0..65535 in runs, each with an outcome text
OutId(f, id) == CASE f = "try" -> IF KnownId(id) THEN "ok 0 " \o ToString(Known[KOf(id)].n) ELSE "err"
                  [] f = "id"  -> IF KnownId(id) THEN "ok 0 1" ELSE "err"
                  [] f = "alg" -> "ok 0 1"
OutHa(set, id) == IF KnownId(id) /\ In(set, KOf(id)) THEN "ok 0 " \o ToString(Known[KOf(id)].n) \o " " \o ToString(68 - Known[KOf(id)].n) ELSE "err"
Ids == {Known[k].id : k \in K}
\* outcomes differ only at known identifiers, so looking at them, their neighbours and the ends decides a run
RunsOk(runs, Out(_), opt) ==
  /\ Len(runs) > 0 /\ runs[1].lo = 0 /\ runs[Len(runs)].hi = 65535
  /\ \A i \in 1..Len(runs) :
       /\ (i > 1 => runs[i].lo = runs[i-1].hi + 1)
       /\ \A id \in {x \in Ids \cup {k + 1 : k \in Ids} \cup {k - 1 : k \in Ids} \cup {runs[i].lo, runs[i].hi} : runs[i].lo <= x /\ x <= runs[i].hi} :
             runs[i].o = Out(id) \/ (id \in opt /\ runs[i].o = "err")
Fitting(e, w) == IF Fits(w, e.len) THEN e.ok /\ e.rest = e.len - Len(w) /\ After(e.buf, w) ELSE ~e.ok
Ok(e) ==
  CASE e.op = "max"   -> ~e.p /\ e.max = MaxDigest(e.set) /\ e.ha = 2 + MaxDigest(e.set) /\ e.id = 2
    [] e.op = "ids"   -> LET Out(id) == OutId(e.f, id) IN RunsOk(e.runs, Out, {})
    [] e.op = "haids" -> LET Out(id) == OutHa(e.set, id) IN RunsOk(e.runs, Out, {Known[k].id : k \in K \ Tagged})
    [] e.op = "dec"   -> LET r == DecHa(e.set, e.in) IN
                         /\ ~e.p
                         /\ \/ e.ok /\ r.ok /\ e.alg = r.alg /\ e.d = r.d /\ e.rest = r.rest /\ e.n = 2 + Len(r.d)
                            \/ ~e.ok /\ (r.ok => ~MustHa(e.in))
    [] e.op = "enc"   -> LET w == EncHa(e.set, e.alg, e.d) IN
                         /\ ~e.p /\ e.n = SizeHa(e.alg) /\ e.max = 2 + MaxDigest(e.set)
                         /\ IF w = <<>> THEN ~e.ok ELSE Fitting(e, w)
    [] e.op = "encid" -> ~e.p /\ e.n = 2 /\ e.max = 2 /\ Fitting(e, BE2(Known[e.i].id))
    [] e.op = "decid" -> ~e.p /\ e.ok = (e.len >= 2) /\ (e.ok => e.alg = 4 /\ e.rest = e.len - 2)
    [] e.op = "int"   -> /\ ~e.p /\ e.n = Len(e.b) /\ Fitting(e, e.b)
                         /\ LET s == Take(e.b \o <<1, 2, 3>>, e.len) IN
                            /\ ~e.dec.p /\ e.dec.ok = (Len(s) >= Len(e.b))
                            /\ e.dec.ok => e.dec.b = e.b /\ e.dec.rest = Drop(s, Len(e.b))
    [] e.op = "arr"   -> ~e.p /\ e.n = Len(e.b) /\ Fitting(e, e.b)
Inv == Judge(Ok(Line), Line.op)
=============================================================================
