----------------------------- MODULE GenServer -----------------------------
(* Histories of requests for the server, with generator scripts.              *)
EXTENDS Server, Json, IOUtils, FiniteSets
CONSTANT Deep
Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Script(i, n0, inf, rf, ff) == [interval |-> i, need0 |-> n0, instf |-> inf, reseedf |-> rf, fillf |-> ff]
Calm == Script(-1, FALSE, FALSE, <<>>, <<>>)
Sep(b, m) == [b |-> b, m |-> m, rs |-> 0]
InP(b, rs, m) == [b |-> b, m |-> m, rs |-> rs]
Hist(kind, sc, steps) == [kind |-> kind, dev |-> FALSE, script |-> sc, steps |-> steps]
\* the same on buffers that record every access
Dev(cs) == [x \in 1..Len(cs) |-> [cs[x] EXCEPT !.dev = TRUE]]
Thin(cs, k) == [x \in 1..(Len(cs) \div k) |-> cs[x * k]]
Req(tag, size, cc, rest) == tag \o size \o cc \o rest
T1 == <<128, 1>>
GR(c) == Req(T1, BE(12, 4), GetRandom, BE(c, 2))
SetAt(s, i, v) == [x \in 1..Len(s) |-> IF x >= i /\ x < i + Len(v) THEN v[x - i + 1] ELSE s[x]]
\* a single request in both ways of execution, the in-place buffer holding it and tail
Both(b, tail, m) == <<Hist("sep", Calm, <<Sep(b, m)>>)>> \o (IF m >= Len(b) THEN <<Hist("twin", Calm, <<InP(b \o tail, Len(b), m)>>)>> ELSE <<>>)
Counts == <<0, 1, 2, 3, 7, 8, 9, 32, 48, 64, 65, 100, 255, 256, 257, 1000, 4086, 4087>>
CountCases == Cat([x \in 1..Len(Counts) |-> LET c == Counts[x] IN
   Cat([d \in 1..5 |-> IF 10 + c + d - 3 < 12 THEN <<Hist("sep", Calm, <<Sep(GR(c), 10 + c + d - 3)>>)>> ELSE Both(GR(c), <<>>, 10 + c + d - 3)])])
SmallCases == Cat([m \in 1..26 |-> Both(GR(4), <<>>, m - 1) \o Both(Req(T1, BE(10, 4), <<0,0,1,122>>, <<>>), <<>>, m - 1)])
BigCases == <<Hist("sep", Calm, <<Sep(GR(65535), 65545)>>), Hist("sep", Calm, <<Sep(GR(65535), 65544)>>), Hist("sep", Calm, <<Sep(GR(32768), 4096)>>), Hist("twin", Calm, <<InP(GR(40000), 12, 4096)>>)>>
\* cut, with the rest of a valid request lying behind it in the buffer
CutCases == Cat([k \in 1..12 |-> LET g == GR(6) c == SubSeq(g, 1, k - 1) IN
   Both(c, SubSeq(g, k, 12), 40) \o (IF k > 6 THEN Both(SetAt(c, 3, BE(k - 1, 4)), SubSeq(g, k, 12), 40) ELSE <<>>)])
SizeVals == <<BE(0, 4), BE(10, 4), BE(11, 4), BE(13, 4), BE(22, 4), BE(40, 4), BE(268, 4), BE(65548, 4), <<1,0,0,12>>, <<128,0,0,12>>, <<255,255,255,255>>, <<12,0,0,0>> >>
SizeCases == Cat([x \in 1..Len(SizeVals) |-> Both(Req(T1, SizeVals[x], GetRandom, BE(6, 2)), <<>>, 40) \o Both(Req(T1, SizeVals[x], <<0,0,1,68>>, BE(0, 2)), <<>>, 40)])
Codes == [x \in 1..(IF Deep THEN 512 ELSE 140) |-> BE((IF Deep THEN 0 ELSE 282) + x, 4)]
         \o << <<0,0,0,0>>, <<0,0,1,0>>, <<32,0,1,123>>, <<128,0,1,123>>, <<1,0,1,123>>, <<0,1,1,123>>, <<0,0,123,1>>, <<123,1,0,0>>, <<255,255,255,255>>, <<0,0,0,123>>, <<0,0,2,123>>, <<32,0,0,0>> >>
CodeCases == Cat([x \in 1..Len(Codes) |-> Both(Req(T1, BE(12, 4), Codes[x], BE(6, 2)), <<>>, 40)])
  \o Cat([x \in 1..Len(Codes) |-> IF x % 5 = 0 THEN Both(Req(T1, BE(10, 4), Codes[x], <<>>), <<0, 6>>, 40) ELSE <<>>])
Tags == << <<128,2>>, <<0,196>>, <<0,0>>, <<1,128>>, <<255,255>>, <<0,1>> >>
TagCases == Cat([x \in 1..Len(Tags) |-> Both(Req(Tags[x], BE(12, 4), GetRandom, BE(6, 2)), <<>>, 40)])
TrailCases == Cat([k \in 1..6 |-> LET t == [x \in 1..k |-> x + 200] IN
   Both(Req(T1, BE(12 + k, 4), GetRandom, BE(6, 2) \o t), <<>>, 40) \o Both(GR(6) \o t, <<>>, 40)])
\* request length arguments up to and beyond the buffer
RsCases == Cat([m \in 1..24 |-> [r \in 1..28 |-> Hist("twin", Calm, <<InP(GR(6), r - 1, m - 1)>>)]])
  \o Cat([r \in 1..16 |-> LET a == <<13, 40, 41, 100, 65536, 65548, 1000000, 2000000000, -1, -2, 12, 11, -3, -4, -5, -6>>[r] IN
        <<Hist("twin", Calm, <<InP(GR(6), a, 40)>>), Hist("twin", Calm, <<InP(SetAt(GR(6), 3, BE(40, 4)), a, 40)>>), Hist("twin", Calm, <<InP(GR(2), a, 12)>>), Hist("twin", Calm, <<InP(GR(6), a, 12)>>)>>])
\* histories: words of requests under every script
Words(n) == SetToSeq([1..n -> {"r5", "r0", "r9", "cc", "mem", "cut"}])
StepOf(w, kind) ==
  CASE w = "r5" -> InP(GR(5), 12, 40) [] w = "r0" -> InP(GR(0), 12, 40) [] w = "r9" -> InP(GR(9), 12, 19)
    [] w = "cc" -> InP(SetAt(GR(5), 10, <<100>>), 12, 40) [] w = "mem" -> InP(GR(31), 12, 40) [] w = "cut" -> InP(GR(5), 11, 40)
Scripts == Cat([i \in 1..4 |-> LET iv == <<-1, 1, 2, 3>>[i] IN
   <<Script(iv, FALSE, FALSE, <<>>, <<>>), Script(iv, TRUE, FALSE, <<>>, <<>>), Script(iv, TRUE, FALSE, <<1>>, <<>>), Script(iv, FALSE, FALSE, <<1>>, <<>>), Script(iv, FALSE, FALSE, <<2>>, <<>>),
     Script(iv, TRUE, FALSE, <<1, 2>>, <<2>>), Script(iv, FALSE, FALSE, <<>>, <<1>>), Script(iv, FALSE, FALSE, <<>>, <<2>>), Script(iv, TRUE, FALSE, <<>>, <<1, 3>>), Script(iv, FALSE, FALSE, <<>>, <<1, 2>>)>>])
  \o Cat([v \in 1..3 |-> LET d == [dull |-> <<0, 255, 1>>[v]] IN <<Script(1, v = 2, FALSE, <<>>, <<>>) @@ d, Script(2, TRUE, FALSE, <<1>>, <<>>) @@ d>>])
  \o <<Script(1, FALSE, TRUE, <<>>, <<>>), Script(-1, TRUE, TRUE, <<1>>, <<1>>)>>
Depth == IF Deep THEN 4 ELSE 2
HistCases == Cat([s \in 1..Len(Scripts) |-> LET ws == TLCEval(Words(Depth)) IN
   [w \in 1..Len(ws) |-> Hist("twin", Scripts[s], [j \in 1..Depth |-> StepOf(ws[w][j], "twin")] \o <<StepOf("r5", "twin"), StepOf("r9", "twin")>>)]])
\* every number of bytes, response just fitting; long runs
AllCounts == Cat([x \in 1..(IF Deep THEN 1100 ELSE 300) |-> IF x < 4 THEN <<>> ELSE <<Hist("twin", Calm, <<InP(GR(x - 1), 12, 9 + x)>>)>>])
LongRuns == [s \in 1..6 |-> LET iv == <<-1, 1, 7, 64, 255, 256>>[s] IN
   Hist("twin", Script(iv, s = 2, FALSE, IF s = 3 THEN <<4, 20>> ELSE <<>>, IF s = 4 THEN <<100, 130>> ELSE <<>>),
        [j \in 1..(IF Deep THEN 1200 ELSE 530) |-> StepOf(IF j % 11 = 0 THEN "mem" ELSE IF j % 7 = 0 THEN "r0" ELSE IF j % 13 = 0 THEN "cc" ELSE "r9", "twin")])]
\* sweeps: one request of which one quantity takes every value lo..top, between pre and post ordinary requests
Sweep(vary, lo, top, c, m, at, sc, pre, post) ==
  [kind |-> "sweep", vary |-> vary, lo |-> lo, top |-> top, c |-> c, m |-> m, at |-> at, script |-> sc, pre |-> pre, post |-> post]
SwScripts == <<Calm, Script(1, FALSE, FALSE, <<>>, <<>>), Script(-1, TRUE, FALSE, <<>>, <<>>), Script(1, FALSE, FALSE, <<1>>, <<>>), Script(-1, FALSE, FALSE, <<>>, <<2>>),
               Calm @@ [flat |-> 0], Calm @@ [flat |-> 255]>>
Far == IF Deep THEN 20000 ELSE 4200
All16 == 65535
SweepCases(part) == CASE part = 0 ->
     [s \in 1..Len(SwScripts) |-> Sweep("count", 2, Far, 0, 0, 0, SwScripts[s], 1, 1)]
     \o <<Sweep("count", 3, Far, 0, -1, 0, Calm, 0, 1), Sweep("count", 2, Far, 0, 1, 0, Calm, 0, 0), Sweep("count", 0, Far, 0, 700, 0, Calm, 2, 1)>>
  [] part = 1 ->
     <<Sweep("mem", 12, Far, 100, 0, 0, Calm, 0, 1), Sweep("mem", 12, Far, 1000, 0, 0, SwScripts[2], 1, 0),
       Sweep("reqlen", 0, Far, 6, 40, 0, Calm, 0, 1), Sweep("trail", 0, Far, 6, 40, 0, Calm, 0, 1), Sweep("trail", 0, Far, 300, 400, 0, SwScripts[2], 1, 1),
       Sweep("rs", 0, Far, 6, Far - 20, 0, Calm, 0, 1),
       Sweep("reqlen", 65528, 65560, 6, 40, 0, Calm, 0, 1), Sweep("reqlen", 65528, 65560, 6, 65600, 0, Calm, 0, 1), Sweep("reqlen", 131070, 131090, 6, 40, 0, Calm, 0, 1),
       Sweep("trail", 65514, 65548, 6, 40, 0, Calm, 0, 1), Sweep("rs", 65528, 65560, 6, 65700, 0, Calm, 0, 1), Sweep("mem", 65528, 65560, 100, 0, 0, Calm, 0, 1),
       Sweep("count", 65500, 65535, 0, 0, 0, Calm, 0, 1), Sweep("count", 65500, 65535, 0, 300, 0, Calm, 0, 1), Sweep("count", 65500, 65535, 0, -1, 0, Calm, 0, 1)>>
  [] part = 2 ->
     <<Sweep("tag", 0, All16, 6, 40, 0, Calm, 0, 0)>>
     \o [a \in 1..3 |-> Sweep("code", 0, All16, 6, 40, a - 1, Calm, 0, 0)]
     \o [a \in 1..3 |-> Sweep("size", 0, All16, 6, 40, a - 1, Calm, 0, 0)]
\* generators with other lengths of entropy input and nonce
Lens == << <<64, 48>>, <<16, 32>>, <<5, 3>>, <<300, 129>> >>
LenCases == Cat([n \in 1..Len(Lens) |-> [x \in 1..(Len(HistCases) \div 12) |-> HistCases[x * 12] @@ [lens |-> Lens[n]]]])
Cases == CASE IOEnv.VERIF_PART = "0" -> CountCases \o SmallCases \o BigCases \o CutCases \o SizeCases \o TagCases \o TrailCases \o AllCounts
                                      \o Dev(SmallCases \o CutCases \o SizeCases \o TagCases \o TrailCases) \o SweepCases(0)
           [] IOEnv.VERIF_PART = "1" -> CodeCases \o RsCases \o Dev(Thin(RsCases, 3)) \o LongRuns \o SweepCases(1)
           [] IOEnv.VERIF_PART = "2" -> HistCases \o Dev(Thin(HistCases, 5)) \o LenCases \o SweepCases(2)
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
