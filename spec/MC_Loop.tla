------------------------------ MODULE MC_Loop ------------------------------
(* One exchange.  Understood: the client reports exactly what the server decided -
   the error it answered, or the random bytes it generated for exactly the number
   the caller asked for.                                                          *)
EXTENDS Loop
CONSTANTS Counts, Rooms, MaxSess, Prefix, Sessions
VARIABLES pc, cmd, n, ns, m, fails, wire, resp, seen
vars == <<pc, cmd, n, ns, m, fails, wire, resp, seen>>
Cmds == {"GetRandomCmd", "StartupCmd", "GetCapabilityCmd"}
Rnd(c) == [i \in 1..c |-> (i * 37 + 11) % 256]
Params == IF cmd = "GetRandomCmd" THEN BE(n, 2) ELSE IF cmd = "StartupCmd" THEN <<0, 1>> ELSE <<0,0,0,6, 0,0,1,5, 0,0,0,1>>
Init == /\ pc = "send" /\ cmd \in Cmds /\ n \in Counts /\ ns \in 0..MaxSess /\ m \in Rooms /\ fails \in BOOLEAN
        /\ wire = <<>> /\ resp = <<>> /\ seen = [k |-> "none"]
Send == pc = "send" /\ pc' = "exec" /\ wire' = Sent(cmd, [i \in 1..ns |-> <<i, 9>>], Params) /\ UNCHANGED <<cmd, n, ns, m, fails, resp, seen>>
Exec == pc = "exec" /\ pc' = "recv" /\ resp' = SrvAnswer(wire, m, fails, Rnd, Prefix, Sessions, ns) /\ UNCHANGED <<cmd, n, ns, m, fails, wire, seen>>
Recv == pc = "recv" /\ pc' = "done" /\ seen' = Reads(cmd, resp, ns) /\ UNCHANGED <<cmd, n, ns, m, fails, wire, resp>>
Spec == Init /\ [][Send \/ Exec \/ Recv]_vars
Understood == pc = "done" =>
   IF RespRc(resp) # Zero4 THEN seen.k = "rc"
   ELSE /\ seen.k = "ok" /\ seen.strict
        /\ cmd = "GetRandomCmd" /\ seen.p = BE(n, 2) \o Rnd(n)
Served == pc = "done" /\ cmd = "GetRandomCmd" /\ ~fails /\ m >= 200 => RespRc(resp) = Zero4
Unknown == pc = "done" /\ cmd # "GetRandomCmd" => RespRc(resp) = BE(CommandCode, 4)
=============================================================================
