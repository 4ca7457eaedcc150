----------------------------- MODULE HandleTrace -----------------------------
EXTENDS Handle, TraceBase
Fs == {"nvindex", "is_nv", "is_hmac", "is_policy", "authsession"}
RangeOk(e) == \E k \in 1..Len(Cover(e.f)) : LET c == Cover(e.f)[k] IN
   /\ e.lo = c.lo /\ e.hi = c.hi
   /\ CASE e.f \in {"nvindex", "authsession"} -> IF c.in THEN e.k = 1 /\ e.d = Zero     \* accepted, unchanged
                                                 ELSE e.k = 2 /\ e.d = <<0, 132>>       \* TPM_RC_VALUE
        [] OTHER -> e.k = IF c.in THEN 1 ELSE 0
NvOk(e) == /\ e.p = FALSE
           /\ \A i \in 1..Len(e.steps) : LET s == e.steps[i] IN
                /\ s.v = IF i = 1 THEN e.in ELSE SetT(e.steps[i-1].v, s.set)
                /\ s.get = GetT(s.v)
                /\ i > 1 => s.from = FromT(s.set)
Inv == Judge(IF Line.op = "range" THEN RangeOk(Line) ELSE NvOk(Line), Line.op)
\* every interval was reported
ASSUME \A f \in Fs : \A k \in 1..Len(Cover(f)) : \/ \E i \in 1..N : Trace[i].op = "range" /\ Trace[i].f = f /\ Trace[i].lo = Cover(f)[k].lo
                                                 \/ \E i \in 1..N : Trace[i].op = "range" /\ Trace[i].f = f /\ ~RangeOk(Trace[i])
=============================================================================
