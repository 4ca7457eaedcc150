---------------------------- MODULE ClientTrace ----------------------------
(* Judges logged histories of the client: each step is one command.           *)
EXTENDS Client, TraceBase
N0 == Len(Line.sess)
CcOf(c) == CASE c = "DynA" -> <<0, 0, 1, 123>> [] c = "DynB" -> <<32, 0, 161, 195>>
             [] c = "GetRandomCmd" -> <<0, 0, 1, 123>> [] c = "StartupCmd" -> <<0, 0, 1, 68>>
             [] c = "PcrReadCmd" -> <<0, 0, 1, 126>> [] c \in {"GetCapabilityCmd", "get_capability"} -> <<0, 0, 1, 122>>
AuthBytes(s) == IF s.k = "pw" THEN PasswordAuth(s.b) ELSE s.b
Want(st) == Frame(CcOf(st.cmd), st.h, [i \in 1..N0 |-> AuthBytes(Line.sess[i])], st.p)
TooBig(st) == st.pfail \/ Len(Want(st)) > CmdCap
RpT(rp) == CASE rp.k = "raw" -> Raw(rp.n) [] rp.k = "b2" -> Digest [] rp.k = "real" -> TypeOf(rp.t)
Delivered(st) == SubSeq(st.resp, 1, st.n)
Vd(st, i, a) == IF Line.sess[i].k = "pw" THEN PasswordOk(a) ELSE st.verd[i]
Reading(st) == LET V1(i, a) == Vd(st, i, a) IN Interp(Delivered(st), Raw(st.rh), RpT(st.rp), N0, V1)
IsErr(st) == st.out = "tss" /\ st.code # Zero4
Steps(P(_)) == \A x \in 1..Len(Line.steps) : P(Line.steps[x])

(* Sweeps: maximal runs of indexes with the same outcome relative to the index.
   Up to SwTop the frame fits, and the response too up to SwTopR.                   *)
IsSweep == Line.op = "sweep"
SwAuth == AuthArea([i \in 1..N0 |-> AuthBytes(Line.sess[i])])
SwTop == LET rest == 10 + Len(SwAuth) IN
  CASE Line.what = "plen" -> CmdCap - rest - Line.h [] Line.what = "hlen" -> CmdCap - rest - Line.p [] OTHER -> Line.to
SwTopR == IF Line.what = "rlen" THEN 4096 - Len(Line.pre) - Len(Line.post) ELSE Line.to
SwFrame(o) == /\ o.sent = 1 /\ o.tag = (IF N0 = 0 THEN NoSess ELSE WithSess) /\ o.size = 0 /\ o.cc = CcOf("DynB")
              /\ o.h /\ o.p /\ o.auth = SwAuth
SwErr(o) == o.out = "tss" /\ o.code \in {"some", "same"}
SwRh == SubSeq(Line.pre, 11, 10 + Line.rh)
SwResult(o) == IF Line.what = "rc" THEN o.out = "tss" /\ o.code = "same" ELSE o.out = "ok" /\ o.orp /\ o.orh = SwRh
SwRuns(fits(_), beyond(_), lost(_)) ==
  /\ Len(Line.runs) > 0 /\ Line.runs[1].lo = Line.from /\ Line.runs[Len(Line.runs)].hi = Line.to
  /\ \A x \in 1..Len(Line.runs)-1 : Line.runs[x].hi + 1 = Line.runs[x+1].lo
  /\ \A x \in 1..Len(Line.runs) : LET r == Line.runs[x] top == IF SwTopR < SwTop THEN SwTopR ELSE SwTop IN
        /\ r.lo <= top => fits(r.o)
        /\ r.hi > SwTop => beyond(r.o)
        /\ r.hi > SwTopR => lost(r.o)
\* C07: exactly one frame, or nothing and an error
SentOk(st) == IF TooBig(st) THEN st.sent = <<>> /\ IsErr(st) ELSE st.sent = <<Want(st)>>
C07Step(st) == st.out # "panic" /\ SentOk(st)
C07Inv == Judge(CASE Line.op = "hist" -> Steps(C07Step)
                  [] IsSweep -> SwRuns(SwFrame, LAMBDA o : o.sent = 0 /\ SwErr(o), SwFrame)
                  [] OTHER -> TRUE, "frame")

\* C08: the result is what was delivered
C08Step(st) ==
  /\ st.out # "panic"
  /\ IF st.sent = <<>> THEN IsErr(st)
     ELSE IF st.fail \/ st.n > 4096 THEN st.out = "conn"
     ELSE LET r == Reading(st) ok == st.out = "ok" /\ st.orh = r.h /\ st.orp = r.p IN
          CASE r.k = "rc" -> st.out = "tss" /\ st.code = RespRc(Delivered(st))
            [] r.k = "ok" -> ok \/ (~r.strict /\ IsErr(st))
            [] r.k = "err" -> IsErr(st)
C08Inv == Judge(CASE Line.op = "hist" -> Steps(C08Step)
                  [] IsSweep -> SwRuns(SwResult, SwErr, LAMBDA o : o.out = "conn")
                  [] OTHER -> TRUE, "response")

\* C09: sessions are asked once each and validate in order
Prefix(s, n) == Len(s) <= n /\ \A i \in 1..Len(s) : s[i] = i
C09Step(st) ==
  /\ Prefix(st.gets, N0) /\ (st.sent # <<>> => Len(st.gets) = N0)
  /\ st.sent # <<>> => SubSeq(st.sent[1], 1, Len(Want(st))) = Want(st)
  /\ Prefix([i \in 1..Len(st.vals) |-> st.vals[i].i], N0)
  /\ IF st.sent = <<>> \/ st.fail \/ st.n > 4096 THEN st.vals = <<>>
     ELSE LET b == Delivered(st) r == Reading(st) q == Parts(b, Raw(st.rh), RpT(st.rp)) IN
          /\ st.out = "ok" => r.k = "ok" /\ Len(st.vals) = N0
          /\ r.k = "ok" /\ r.strict => st.out = "ok"
          /\ IF HasHeader(b) /\ RespRc(b) = Zero4 /\ SizeOk(b) /\ q.ok
             THEN LET a == Auths(b, q.at, N0).a IN
                  Len(st.vals) <= Len(a) /\ \A i \in 1..Len(st.vals) : st.vals[i].a = a[i]
             ELSE st.vals = <<>>
SecretOk == IF Line.n > SecretCap THEN Line.r = "rc149"
            ELSE Line.r = "ok" /\ Line.s = Line.b /\ Line.a = PasswordAuth(Line.b)
DecompOk == /\ Line.ids = [i \in 1..3 |-> IF i <= Line.n THEN i ELSE 0]
            /\ Line.view = "any" => Line.empty = (Line.n = 0)
SwSess(o) == o.gets = N0 /\ (o.out = "ok" => o.vals = N0) /\ o.auth = SwAuth
C09Inv == Judge(CASE IsSweep -> SwRuns(SwSess, LAMBDA o : o.vals = 0, LAMBDA o : o.gets = N0 /\ o.vals = 0)
                  [] Line.op = "hist" -> Steps(C09Step) [] Line.op = "secret" -> SecretOk [] Line.op = "decomp" -> DecompOk, "sessions")
=============================================================================
