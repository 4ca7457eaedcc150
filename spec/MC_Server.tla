----------------------------- MODULE MC_Server -----------------------------
(* The server at the granularity of calls on its platform objects, with a
   generator that demands reseeding and fails at will.  Every history is
   checked against the discipline and the answers of Server.                  *)
EXTENDS Server
CONSTANTS MaxCmds, Sizes, Room

VARIABLES pc, es, cur, draws, need, req, cmds, resp, live, all
vars == <<pc, es, cur, draws, need, req, cmds, resp, live, all>>
\* draw number d, of n bytes: distinguishable
Draw(d, n) == [x \in 1..n |-> IF x = 1 THEN d ELSE 0]
Req(c) == <<128, 1>> \o BE(12, 4) \o GetRandom \o BE(c, 2)
Other == <<128, 1>> \o BE(10, 4) \o <<0, 0, 1, 124>>
Short == <<128, 1>> \o BE(12, 4) \o GetRandom \o <<0>>
Requests == {Req(c) : c \in Sizes} \cup {Other, Short}
Ev(k, b, nn, nd, ok) == [e |-> k, b |-> b, nonce |-> nn, need |-> nd, ok |-> ok]
Init == pc = "entropy" /\ es = <<>> /\ cur = <<>> /\ draws = 0 /\ need = FALSE /\ req = <<>> /\ cmds = 0 /\ resp = <<>> /\ live = FALSE /\ all = <<>>
DrawE(n, next) == /\ es' = Append(es, Ev("ent", Draw(draws + 1, n), <<>>, FALSE, TRUE)) /\ draws' = draws + 1 /\ pc' = next
Entropy == pc = "entropy" /\ DrawE(EntLen, "nonce") /\ UNCHANGED <<cur, need, req, cmds, resp, live, all>>
Nonce == pc = "nonce" /\ DrawE(NonceLen, "inst") /\ UNCHANGED <<cur, need, req, cmds, resp, live, all>>
Inst == /\ pc = "inst" /\ \E ok \in BOOLEAN :
             /\ es' = Append(es, Ev("inst", Draw(1, EntLen), Draw(2, NonceLen), FALSE, ok))
             /\ live' = ok /\ pc' = IF ok THEN "idle" ELSE "dead"
        /\ need' \in BOOLEAN
        /\ UNCHANGED <<cur, draws, req, cmds, resp, all>>
Recv == /\ pc = "idle" /\ cmds < MaxCmds /\ \E r \in Requests : req' = r
        /\ cmds' = cmds + 1 /\ all' = all \o es /\ es' = <<>> /\ pc' = "dispatch"
        /\ UNCHANGED <<cur, draws, need, resp, live>>
Reply(b) == resp' = b /\ pc' = "idle"
Dispatch == /\ pc = "dispatch"
            /\ LET c == Classify(req, Room) IN
               IF c.k = "err" THEN Reply(ErrResp(c.rc))
               ELSE resp' = resp /\ pc' = IF need THEN "draw" ELSE "fill"
            /\ UNCHANGED <<es, cur, draws, need, req, cmds, live, all>>
DrawR == /\ pc = "draw" /\ DrawE(EntLen, "reseed") /\ UNCHANGED <<cur, need, req, cmds, resp, live, all>>
Reseed == /\ pc = "reseed" /\ \E ok \in BOOLEAN :
               /\ es' = Append(es, Ev("reseed", Draw(draws, EntLen), <<>>, need, ok))
               /\ IF ok THEN need' = FALSE /\ pc' = "fill" /\ resp' = resp
                  ELSE need' = need /\ Reply(ErrResp(Failure))
          /\ UNCHANGED <<cur, draws, req, cmds, live, all>>
Fill == /\ pc = "fill"
        /\ LET n == Classify(req, Room).n  out == [x \in 1..n |-> (cmds * 16 + x) % 256] IN
           \E ok \in BOOLEAN :
             /\ es' = Append(es, Ev("fill", out, <<>>, need, ok))
             /\ Reply(IF ok THEN OkResp(out) ELSE ErrResp(Failure))
        /\ need' \in BOOLEAN
        /\ UNCHANGED <<cur, draws, req, cmds, live, all>>
Next == Entropy \/ Nonce \/ Inst \/ Recv \/ Dispatch \/ DrawR \/ Reseed \/ Fill
Spec == Init /\ [][Next]_vars
\* C12
Disciplined == Run(G0, all \o es).ok
NothingWithoutGenerator == ~live => cmds = 0
\* C10
Settled == pc = "idle" /\ cmds > 0
Answered == Settled => resp = Answer(req, Room, es)
WellFormed == Settled => /\ Len(resp) <= Room /\ SubSeq(resp, 3, 6) = BE(Len(resp), 4)
                         /\ (SubSeq(resp, 7, 10) # BE(0, 4) => IsErrResp(resp))
OnlyGenerated == Settled /\ SubSeq(resp, 7, 10) = BE(0, 4) => SubSeq(resp, 11, Len(resp)) = Outputs(es) /\ ~Failed(es)
=============================================================================
