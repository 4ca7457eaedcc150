------------------------------- MODULE GenSim -------------------------------
EXTENDS Sim, SequencesExt, Json, IOUtils, TLC
CONSTANT Deep
Cat(ss) == LET t == TLCEval(ss) IN FoldLeft(LAMBDA x, y : TLCEval(x \o y), <<>>, t)
P(how, delay, gap) == [how |-> how, delay |-> delay, gap |-> gap]
Now == P("plain", 0, 0)
Base == [bin |-> "sim", stale |-> "none", cmd |-> Now, plat |-> Now, lcmd |-> 0, lplat |-> 0, life |-> "serve", stop |-> "obey", end |-> <<"ask", "drop">>]
Ends == <<<<"ask", "stop">>, <<"ask", "drop">>, <<"ask", "nicely", "drop">>, <<"ask", "stop", "drop">>, <<"ask", "nicely", "stop", "drop">>, <<"ask", "stop", "stop", "drop">>,
          <<"ask", "nicely", "wait", "drop">>, <<"ask", "nicely", "wait", "stop">>, <<"ask", "stop", "nicely", "drop">>, <<"stop">>, <<"drop">>, <<"ask", "nicely", "nicely", "drop">> >>
Stops == <<"obey", "ignore", "slow", "slowlong">>
EndCases == Cat([i \in 1..Len(Ends) |-> [j \in 1..Len(Stops) |-> [Base EXCEPT !.end = Ends[i], !.stop = Stops[j]]]])
Goods == <<P("newline", 0, 0), P("crlf", 0, 0), P("plain", 700, 0), P("newline", 1500, 0), P("newline", 2000, 0), P("empty-then", 0, 1500), P("partial-then", 0, 700), P("empty-then", 700, 1500)>>
Bads == <<P("never", 0, 0), P("garbage", 0, 0), P("empty", 0, 0), P("large", 0, 0), P("negative", 0, 0), P("garbage", 700, 0)>>
PubCases == Cat([i \in 1..Len(Goods) |-> <<[Base EXCEPT !.cmd = Goods[i]], [Base EXCEPT !.plat = Goods[i]], [Base EXCEPT !.cmd = Goods[i], !.plat = Goods[i]]>>])
  \o Cat([i \in 1..Len(Bads) |-> <<[Base EXCEPT !.cmd = Bads[i]], [Base EXCEPT !.plat = Bads[i]], [Base EXCEPT !.cmd = Bads[i], !.plat = Bads[i], !.stop = "ignore"]>>])
ListenCases == <<[Base EXCEPT !.lcmd = -1], [Base EXCEPT !.lplat = -1], [Base EXCEPT !.lcmd = -1, !.lplat = -1, !.stop = "ignore"], [Base EXCEPT !.lcmd = 1500], [Base EXCEPT !.lplat = 1500], [Base EXCEPT !.lcmd = 2000, !.lplat = 700]>>
StaleKinds == <<"dead", "decoy", "dead-one", "decoy-one">>
StaleCases == Cat([i \in 1..4 |-> LET s == [Base EXCEPT !.stale = StaleKinds[i]] IN
   <<s, [s EXCEPT !.cmd = P("newline", 1500, 0)], [s EXCEPT !.cmd = P("newline", 700, 0), !.plat = P("newline", 1500, 0)], [s EXCEPT !.plat = P("never", 0, 0)],
     [s EXCEPT !.cmd = P("never", 0, 0), !.plat = P("never", 0, 0)], [s EXCEPT !.life = "exit-at-once"], [s EXCEPT !.bin = "missing"]>>])
LifeCases == <<[Base EXCEPT !.life = "exit-at-once"], [Base EXCEPT !.life = "exit-after-publish", !.cmd = P("plain", 300, 0), !.plat = P("plain", 300, 0)],
   [Base EXCEPT !.life = "exit-while-running", !.end = <<"drop">>], [Base EXCEPT !.life = "exit-while-running", !.end = <<"stop", "drop">>],
   [Base EXCEPT !.bin = "missing"], [Base EXCEPT !.bin = "notexec"], [Base EXCEPT !.bin = "nodir"]>>
More == IF ~Deep THEN <<>> ELSE
   Cat([i \in 1..Len(Goods) |-> Cat([j \in 1..Len(Goods) |-> Cat([k \in 1..4 |-> <<[Base EXCEPT !.cmd = Goods[i], !.plat = Goods[j], !.stale = StaleKinds[k], !.stop = Stops[((i + j + k) % 4) + 1], !.end = Ends[((i * 3 + j + k) % Len(Ends)) + 1]]>>])])])
   \o Cat([i \in 1..Len(Bads) |-> Cat([j \in 1..Len(Goods) |-> <<[Base EXCEPT !.cmd = Bads[i], !.plat = Goods[j], !.stale = "decoy"], [Base EXCEPT !.cmd = Goods[j], !.plat = Bads[i], !.stale = "decoy-one", !.stop = "ignore"]>>])])
\* around the last attempt
Again(c, r) == c @@ [again |-> r]
Pub(n) == P("newline", n, 0)
Reads(k) == P("after-reads", 0, k)
TimeCases == <<Again([Base EXCEPT !.cmd = Pub(2600)], "ok"), Again([Base EXCEPT !.cmd = Pub(2600), !.plat = Pub(2650)], "ok"), Again([Base EXCEPT !.cmd = P("empty-then", 0, 2600)], "ok"),
   Again([Base EXCEPT !.plat = Pub(2600)], "ok"), Again([Base EXCEPT !.lcmd = 2600], "ok"), Again([Base EXCEPT !.lplat = 2600], "ok"),
   Again([Base EXCEPT !.cmd = Pub(3550)], "err"), Again([Base EXCEPT !.cmd = P("partial-then", 100, 3450)], "err"), Again([Base EXCEPT !.cmd = Pub(3550), !.plat = Pub(3550)], "err")>>
  \o [k \in 1..5 |-> Again([Base EXCEPT !.cmd = Pub(500), !.plat = Reads(k)], IF k < Tries THEN "ok" ELSE "err")]
  \o [k \in 1..5 |-> Again([Base EXCEPT !.lplat = -10 - k], IF k < Tries THEN "ok" ELSE "err")]
Cases == TimeCases \o EndCases \o PubCases \o ListenCases \o StaleCases \o LifeCases \o More
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
