----------------------------- MODULE LoopTrace -----------------------------
EXTENDS Loop, TraceBase
IsErr(st) == st.out = "tss" /\ st.code # Zero4
\* the client reports what was delivered
Faithful(st) == LET r == Reads(st.cmd, st.got[1], Len(st.sess)) IN
  CASE r.k = "rc" -> st.out = "tss" /\ st.code = RespRc(st.got[1])
    [] r.k = "ok" -> (st.out = "ok" /\ st.orp = r.p) \/ (~r.strict /\ IsErr(st))
    [] r.k = "err" -> IsErr(st)
Known(x, id) == x /\ PrintT(<<"KNOWN", id>>)
Room(st) == IF st.inplace /\ Len(st.sent[1]) > st.m THEN Len(st.sent[1]) ELSE st.m
RandOk(st) ==
  LET n == Num(st.p, 0, 2) b == st.got[1] rc == RespRc(b) o == Outputs(st.es) IN
  IF Failed(st.es) THEN st.out = "tss" /\ st.code = BE(Failure, 4)
  ELSE IF rc # Zero4 THEN /\ st.out = "tss" /\ st.code = rc
                          /\ st.sess = <<>> => rc = BE(Memory, 4) /\ HDR + 2 + n > Room(st) 
  ELSE \/ st.out = "ok" /\ Len(o) = n /\ st.orp = BE(n, 2) \o o
       \/ Known(st.sess = <<>> /\ Len(o) = n /\ HDR + n <= Room(st) /\ b = OkResp(o) /\ Faithful(st), "no-size-prefix")
       \/ Known(st.sess # <<>> /\ b = Answer(st.sent[1], Room(st), st.es) /\ Faithful(st), "sessions-ignored")
StepOk(st) ==
  /\ st.out \notin {"panic", "conn"} /\ st.sent = <<Sent(st.cmd, st.sess, st.p)>> /\ Len(st.got) = 1 /\ Len(st.got[1]) >= HDR
  /\ IF st.cmd = "GetRandomCmd" THEN RandOk(st)
     ELSE st.got[1] = ErrResp(CommandCode) /\ st.out = "tss" /\ st.code = BE(CommandCode, 4) /\ Outputs(st.es) = <<>>
Inv == Judge(Line.created /\ \A i \in 1..Len(Line.steps) : StepOk(Line.steps[i]), "loop")
=============================================================================
