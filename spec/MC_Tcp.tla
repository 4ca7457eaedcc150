------------------------------- MODULE MC_Tcp -------------------------------
(* Client and simulator exchanging bytes over a stream that is cut into
   arbitrary segments.  Frames with one-byte fields: command <<8, loc, n, id..>>,
   response <<n, payload.., term>>.  The simulator answers command id with a
   payload made of id, of any length, or with a bad terminator.  Drain = FALSE
   leaves a response that does not fit in the stream (what must not happen).    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxCmds, Cap, MaxResp, Drain, Locs
VARIABLES wire, back, pc, got, rd, id, loc, out, sid, sres, sent
vars == <<wire, back, pc, got, rd, id, loc, out, sid, sres, sent>>
(* wire/back: bytes in flight.  got: bytes read for the current answer.  rd: bytes
   the simulator has read.  out: results by command.  sres: what the simulator sent. *)
Init == wire = <<>> /\ back = <<>> /\ pc = "idle" /\ got = <<>> /\ rd = <<>> /\ id = 0 /\ loc = 0 /\ out = <<>> /\ sid = <<>> /\ sres = <<>> /\ sent = <<>>
SetLoc == pc = "idle" /\ \E x \in Locs : loc' = x /\ UNCHANGED <<wire, back, pc, got, rd, id, out, sid, sres, sent>>
Send == /\ pc = "idle" /\ id < MaxCmds /\ id' = id + 1 /\ pc' = "wait" /\ got' = <<>>
        /\ LET f == <<8, loc, 1, id + 1>> IN wire' = wire \o f /\ sent' = Append(sent, loc)
        /\ UNCHANGED <<back, rd, loc, out, sid, sres>>
\* the simulator reads a segment
SRead == /\ Len(wire) > 0 /\ \E k \in 1..Len(wire) : rd' = rd \o SubSeq(wire, 1, k) /\ wire' = SubSeq(wire, k + 1, Len(wire))
         /\ UNCHANGED <<back, pc, got, id, loc, out, sid, sres, sent>>
SReply == /\ Len(rd) >= 4 /\ rd[1] = 8 /\ rd' = SubSeq(rd, 5, Len(rd))
          /\ \E n \in 0..MaxResp, t \in {0, 1} :
               /\ back' = back \o <<n>> \o [x \in 1..n |-> 10 * rd[4] + x] \o <<t>>
               /\ sres' = Append(sres, [n |-> n, t |-> t])
          /\ sid' = Append(sid, [id |-> rd[4], loc |-> rd[2]])
          /\ UNCHANGED <<wire, pc, got, id, loc, out, sent>>
CRead == /\ pc = "wait" /\ Len(back) > 0
         /\ LET need == IF Len(got) = 0 THEN 1 ELSE IF got[1] > Cap /\ ~Drain THEN 0 ELSE 2 + got[1] - Len(got) IN
            /\ need > 0
            /\ \E k \in 1..(IF need < Len(back) THEN need ELSE Len(back)) : got' = got \o SubSeq(back, 1, k) /\ back' = SubSeq(back, k + 1, Len(back))
         /\ UNCHANGED <<wire, pc, rd, id, loc, out, sid, sres, sent>>
Finish == /\ pc = "wait" /\ Len(got) > 0
          /\ LET n == got[1] IN
             \/ /\ n > Cap /\ (IF Drain THEN Len(got) = n + 2 ELSE TRUE)
                /\ out' = Append(out, [r |-> "oversize", b |-> <<>>])
             \/ /\ n <= Cap /\ Len(got) = n + 2
                /\ out' = Append(out, IF got[n + 2] = 0 THEN [r |-> "ok", b |-> SubSeq(got, 2, n + 1)] ELSE [r |-> "bad", b |-> <<>>])
          /\ pc' = "idle" /\ UNCHANGED <<wire, back, got, rd, id, loc, sid, sres, sent>>
Next == SetLoc \/ Send \/ SRead \/ SReply \/ CRead \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(SRead) /\ WF_vars(SReply) /\ WF_vars(CRead) /\ WF_vars(Finish)
Paired == \A i \in 1..Len(out) : /\ i <= Len(sres)
   /\ out[i] = IF sres[i].n > Cap THEN [r |-> "oversize", b |-> <<>>]
               ELSE IF sres[i].t # 0 THEN [r |-> "bad", b |-> <<>>]
               ELSE [r |-> "ok", b |-> [x \in 1..sres[i].n |-> 10 * i + x]]
Framed == \A i \in 1..Len(sid) : sid[i] = [id |-> i, loc |-> sent[i]]
LockStep == Len(sid) <= id /\ Len(sid) >= Len(out) /\ (pc = "idle" => wire = <<>> /\ back = <<>>)
Answered == pc = "wait" ~> pc = "idle"
=============================================================================
