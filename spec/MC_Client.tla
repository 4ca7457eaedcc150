----------------------------- MODULE MC_Client -----------------------------
(* One command run by the client, step by step: ask the sessions, send, receive,
   take the response apart, let the sessions validate.  The stepwise machine is
   checked against the declarative reading of frames and responses (Client).    *)
EXTENDS Client
CONSTANTS MaxN, Room        \* number of sessions, size of the command buffer

VARIABLES pc, n, h, p, asked, sent, resp, pos, seen, verd, out, got
vars == <<pc, n, h, p, asked, sent, resp, pos, seen, verd, out, got>>
cc == <<0, 0, 1, 123>>
RhT == Raw(1)   RpT == B2(1)
AuthC(i) == <<64, 0, 0, 9, 0, 0, i, 0, 0>>            \* authorization of session i
AuthR(i) == <<0, 0, 16 + i, 0, 0>>

ReadNum(b) == Num(b, 0, 4)
\* the other side: takes a frame apart without knowing how it was made
Peer(f, hl) ==
  LET s == SubSeq(f, 1, 2) = WithSess
      al == IF s THEN Num(f, 10 + hl, 4) ELSE 0
      ps == IF s THEN 10 + hl + 4 + al ELSE 10 + hl
  IN [len |-> Num(f, 2, 4), cc |-> SubSeq(f, 7, 10), h |-> SubSeq(f, 11, 10 + hl),
      auth |-> IF s THEN SubSeq(f, 10 + hl + 5, ps) ELSE <<>>, sess |-> s, p |-> SubSeq(f, ps + 1, Len(f))]

Small == {<<>>, <<7>>, <<7, 8>>}
Init == /\ pc = "ask" /\ n \in 0..MaxN /\ h \in Small /\ p \in Small
        /\ asked = <<>> /\ sent = <<>> /\ resp = <<>> /\ pos = 0 /\ seen = <<>>
        /\ verd \in [1..MaxN -> BOOLEAN] /\ (\A i \in n+1..MaxN : verd[i])
        /\ out = "none" /\ got = <<>>
Ask == /\ pc = "ask" /\ Len(asked) < n
       /\ asked' = Append(asked, Len(asked) + 1)
       /\ UNCHANGED <<pc, n, h, p, sent, resp, pos, seen, verd, out, got>>
TheFrame == Frame(cc, h, [i \in 1..n |-> AuthC(i)], p)
Send == /\ pc = "ask" /\ Len(asked) = n
        /\ IF Len(TheFrame) <= Room
           THEN sent' = Append(sent, TheFrame) /\ pc' = "wait" /\ out' = out
           ELSE sent' = sent /\ pc' = "done" /\ out' = "err"
        /\ UNCHANGED <<n, h, p, asked, resp, pos, seen, verd, got>>
\* everything a connection may deliver: consistent responses and ones with faults
Body(tag, ps, k, tr) ==
  <<33>> \o (IF tag = WithSess THEN BE(ps, 4) ELSE <<>>) \o <<0, 1, 44>> \o CatAll([i \in 1..k |-> AuthR(i)]) \o [i \in 1..tr |-> 0]
Deliver ==
  /\ pc = "wait"
  /\ \/ pc' = "done" /\ out' = "conn" /\ UNCHANGED resp
     \/ \E tag \in {NoSess, WithSess, <<0, 196>>}, ps \in {3, 4, 2}, k \in 0..n+1, tr \in 0..1, ds \in {-1, 0, 1},
           rc \in {Zero4, <<0, 0, 1, 1>>}, cut \in {0, 1, 4, 30} :
          LET b == Body(tag, ps, k, tr)
              full == tag \o BE(10 + Len(b) + ds, 4) \o rc \o b
          IN /\ (ps # 3 => tag = WithSess)
             /\ cut < Len(full)
             /\ resp' = SubSeq(full, 1, Len(full) - cut)
             /\ pc' = "header" /\ out' = out
  /\ UNCHANGED <<n, h, p, asked, sent, pos, seen, verd, got>>
Fin(o) == pc' = "done" /\ out' = o /\ UNCHANGED <<pos, got>>
Header ==
  /\ pc = "header"
  /\ IF ~HasHeader(resp) THEN Fin("err")
     ELSE IF RespRc(resp) # Zero4 THEN Fin("rc")
     ELSE IF ~SizeOk(resp) THEN Fin("err")
     ELSE LET q == Parts(resp, RhT, RpT) IN
          IF ~q.ok \/ ~q.ps THEN Fin("err")
          ELSE pc' = "validate" /\ pos' = q.at /\ got' = <<q.h, q.p>> /\ out' = out
  /\ UNCHANGED <<n, h, p, asked, sent, resp, seen, verd>>
Validate ==
  /\ pc = "validate" /\ Len(seen) < n
  /\ LET r == Dec(AuthResp, resp, pos, Len(resp), "") i == Len(seen) + 1 IN
     IF ~IsOk(r) THEN pc' = "done" /\ out' = "err" /\ UNCHANGED <<seen, pos>>
     ELSE /\ seen' = Append(seen, <<i, SubSeq(resp, pos + 1, r.i)>>)
          /\ pos' = r.i
          /\ IF verd[i] THEN pc' = pc /\ out' = out ELSE pc' = "done" /\ out' = "err"
  /\ UNCHANGED <<n, h, p, asked, sent, resp, verd, got>>
Finish ==
  /\ pc = "validate" /\ Len(seen) = n
  /\ pc' = "done" /\ out' = (IF pos = Len(resp) THEN "ok" ELSE "err")
  /\ UNCHANGED <<n, h, p, asked, sent, resp, pos, seen, verd, got>>
Next == Ask \/ Send \/ Deliver \/ Header \/ Validate \/ Finish
Spec == Init /\ [][Next]_vars

\* C07
OneFrame == Len(sent) <= 1
FrameReads == \A i \in 1..Len(sent) : LET f == sent[i] q == Peer(f, Len(h)) IN
   /\ q.len = Len(f) /\ q.cc = cc /\ q.h = h /\ q.p = p /\ q.sess = (n > 0)
   /\ q.auth = CatAll([j \in 1..n |-> AuthC(j)]) /\ Len(f) <= Room
NothingSentIfTooBig == Len(TheFrame) > Room => sent = <<>>
\* C09
InOrder == /\ asked = [i \in 1..Len(asked) |-> i]
           /\ (sent # <<>> => Len(asked) = n)
           /\ \A i \in 1..Len(seen) : seen[i][1] = i
OkNeedsAll == out = "ok" => Len(seen) = n /\ \A i \in 1..n : verd[i]
\* C08
OkIsConsistent == out = "ok" => /\ RespRc(resp) = Zero4 /\ SizeOk(resp)
                                /\ Len(resp) = 10 + 1 + (IF RespTag(resp) = WithSess THEN 4 ELSE 0) + 3 + 5 * n
                                /\ got = << <<33>>, <<0, 1, 44>> >>
\* the stepwise machine and the declarative interpretation agree
Agree == pc = "done" /\ out \in {"ok", "rc", "err"} /\ resp # <<>> =>
   LET Vd(i, a) == verd[i]  r == Interp(resp, RhT, RpT, n, Vd) IN
   /\ out = r.k
   /\ \A i \in 1..Len(seen) : seen[i][2] = r.auths[i]
=============================================================================
