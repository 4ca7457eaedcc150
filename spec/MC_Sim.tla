------------------------------- MODULE MC_Sim -------------------------------
(* The launcher in steps, next to a process and a file system that do what they
   like: publish ports early, late, in pieces or never, listen or not, exit at
   any time, ignore a stop request.  CleanStale/KillOnFail/WaitOnDrop are the
   launcher's obligations (TRUE); setting one to FALSE must break an invariant. *)
EXTENDS Integers
CONSTANTS Tries, CleanStale, KillOnFail, WaitOnDrop
VARIABLES pc, tries, file, port, proc, listen, conn, told
vars == <<pc, tries, file, port, proc, listen, conn, told>>
Files == {"cmd", "plat"}
Contents == {"none", "stale", "partial", "port"}
Init == /\ pc = "clean" /\ tries = 0 /\ file \in [Files -> {"none", "stale"}] /\ port = [f \in Files |-> "none"]
        /\ proc = "none" /\ listen = FALSE /\ conn = "none" /\ told = FALSE
\* launcher
Clean == pc = "clean" /\ pc' = "spawn" /\ file' = (IF CleanStale THEN [f \in Files |-> "none"] ELSE file) /\ UNCHANGED <<tries, port, proc, listen, conn, told>>
Spawn == pc = "spawn" /\ \/ proc' = "running" /\ pc' = "cmd"
                         \/ proc' = "none" /\ pc' = "err"
         /\ UNCHANGED <<tries, file, port, listen, conn, told>>
Read(f, next) ==
   /\ pc = f
   /\ IF file[f] \in {"port", "stale"}
      THEN port' = [port EXCEPT ![f] = IF file[f] = "port" THEN "own" ELSE "other"] /\ pc' = next /\ tries' = 0
      ELSE port' = port /\ (IF tries + 1 < Tries THEN pc' = pc /\ tries' = tries + 1 ELSE pc' = "fail" /\ tries' = 0)
   /\ UNCHANGED <<file, proc, listen, conn, told>>
Accepts(p) == p = "other" \/ (proc = "running" /\ listen)
Connect ==
   /\ pc = "connect"
   /\ IF Accepts(port["cmd"]) /\ Accepts(port["plat"])
      THEN conn' = (IF port["cmd"] = "own" /\ port["plat"] = "own" THEN "own" ELSE "other") /\ pc' = "ok" /\ tries' = 0
      ELSE conn' = conn /\ (IF tries + 1 < Tries THEN pc' = pc /\ tries' = tries + 1 ELSE pc' = "fail" /\ tries' = 0)
   /\ UNCHANGED <<file, port, proc, listen, told>>
Fail == pc = "fail" /\ pc' = "err" /\ proc' = (IF KillOnFail THEN "reaped" ELSE proc) /\ UNCHANGED <<tries, file, port, listen, conn, told>>
Stop == pc = "ok" /\ pc' = "stopped" /\ proc' = "reaped" /\ UNCHANGED <<tries, file, port, listen, conn, told>>
Drop == pc = "ok" /\ pc' = "asked" /\ told' = TRUE /\ tries' = 0 /\ UNCHANGED <<file, port, proc, listen, conn>>
\* poll a few times, then force
Poll == /\ pc = "asked"
        /\ IF proc = "exited" THEN proc' = "reaped" /\ pc' = "dropped" /\ tries' = tries
           ELSE IF tries + 1 < Tries THEN tries' = tries + 1 /\ UNCHANGED <<proc, pc>>
           ELSE pc' = "dropped" /\ tries' = tries /\ proc' = (IF WaitOnDrop THEN "reaped" ELSE proc)
        /\ UNCHANGED <<file, port, listen, conn, told>>
\* process
Put(f) == proc = "running" /\ file[f] # "port" /\ \E c \in {"partial", "port"} : file' = [file EXCEPT ![f] = c] /\ UNCHANGED <<pc, tries, port, proc, listen, conn, told>>
Listen == proc = "running" /\ listen' \in BOOLEAN /\ UNCHANGED <<pc, tries, file, port, proc, conn, told>>
Exit == proc = "running" /\ proc' = "exited" /\ UNCHANGED <<pc, tries, file, port, listen, conn, told>>
Launcher == Clean \/ Spawn \/ Read("cmd", "plat") \/ Read("plat", "connect") \/ Connect \/ Fail \/ Poll
Next == Launcher \/ Stop \/ Drop \/ (\E f \in Files : Put(f)) \/ Listen \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Launcher)
Ended == proc \in {"none", "reaped"}
OwnProcess == pc \in {"ok", "asked", "stopped", "dropped"} => conn = "own"
NoLeak == pc \in {"err", "stopped", "dropped"} => Ended
Decides == <>(pc \in {"ok", "asked", "stopped", "dropped", "err"})
DropEnds == (pc = "asked") ~> (pc = "dropped")
=============================================================================
