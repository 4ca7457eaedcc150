-------------------------------- MODULE Sim --------------------------------
(* Scenarios of starting and ending a simulator process, and their outcome.
   The launcher looks for each port file four times, one second apart, and then
   tries four times to connect.  Times are milliseconds after the start.  What
   the process did, and when, is in cmd_did and plat_did: at (port file complete),
   listen, seen and reads (of the incomplete file, and before it was completed),
   first (connection), after (connections of the other port before it listened);
   -1 if it did not.
   A launcher that makes four attempts one second apart cannot have made the last
   one earlier than three seconds after the start, however busy the machine is:
   what happened before that must be seen (Soon).  What is planned clearly after
   the last attempt must not be (Late).  In between both outcomes pass.          *)
EXTENDS Integers, Sequences
Window == 2700
Limit == 2950
Tries == 4
\* it happened in time, or would have if the launcher had not given up before
Timely(s, planned, at) == planned <= Window /\ IF at >= 0 THEN at <= Limit ELSE s.took <= Limit
PubSoon(s, p, d) == CASE p.how \in {"plain", "newline", "crlf"} -> Timely(s, p.delay, d.at)
                      [] p.how \in {"empty-then", "partial-then"} -> Timely(s, p.delay + p.gap, d.at)
                      [] p.how = "after-reads" -> p.gap < Tries /\ (d.reads = p.gap \/ (d.at = -1 /\ d.seen >= 1))
                      [] OTHER -> FALSE
PubLate(p) == CASE p.how \in {"plain", "newline", "crlf"} -> p.delay >= 3500
                [] p.how \in {"empty-then", "partial-then"} -> p.delay + p.gap >= 3500
                [] p.how = "after-reads" -> p.gap >= Tries
                [] OTHER -> TRUE
\* given up sooner after the first connection e than four attempts take
Hasty(s, e) == e.first >= 0 /\ s.took - e.first < 2500
ListenSoon(s, l, d, e) == IF l <= -10 THEN -10 - l < Tries /\ (d.after = -10 - l \/ (d.after = -1 /\ Hasty(s, e))) ELSE l >= 0 /\ Timely(s, l, d.listen)
ListenLate(l) == IF l <= -10 THEN -10 - l >= Tries ELSE l = -1 \/ l >= 7500
Starts(s) == s.bin = "sim" /\ s.life \notin {"exit-at-once", "exit-after-publish"}
Soon(s) == Starts(s) /\ PubSoon(s, s.cmd, s.cmd_did) /\ PubSoon(s, s.plat, s.plat_did) /\ ListenSoon(s, s.lcmd, s.cmd_did, s.plat_did) /\ ListenSoon(s, s.lplat, s.plat_did, s.cmd_did)
Late(s) == ~Starts(s) \/ PubLate(s.cmd) \/ PubLate(s.plat) \/ ListenLate(s.lcmd) \/ ListenLate(s.lplat)
Gone(x) == x.live = 0 /\ x.zombie = 0
\* steps after a successful start: which of them must report success, and which leave no process
First(st, i, e) == st[i].e = e /\ \A j \in 1..i-1 : st[j].e \notin {"stop", "nicely"}
StepOk(s, i) == LET x == s.steps[i] IN
  /\ ~x.panic
  /\ x.e = "ask" => x.ok
  /\ (s.life = "serve" /\ (First(s.steps, i, "stop") \/ First(s.steps, i, "nicely"))) => x.ok
  /\ x.e \in {"stop", "drop"} => Gone(x.left)
ScenarioOk(s) ==
  /\ s.decoyed = 0
  /\ s.r \notin {"panic", "hang", "died"}
  /\ Soon(s) => s.r = "ok"
  /\ Late(s) => s.r # "ok"
  /\ s.r = "ok" => Len(s.steps) = Len(s.end) /\ \A i \in 1..Len(s.steps) : StepOk(s, i)
  /\ Gone(s.left)
=============================================================================
