----------------------------- MODULE GenClient -----------------------------
(* Histories of commands for the client: frames around every size boundary,
   responses with every kind of inconsistency, all session outcomes.          *)
EXTENDS GenBase, Client

\* --- building blocks ---------------------------------------------------------
Fill(n, s) == [x \in 1..n |-> (x * 29 + (x \div 256) * 3 + s * 11) % 256]
RecAuth(i, nn, at, hm) == <<2 + (i % 2), 0, 0, i>> \o BE(nn, 2) \o Fill(nn, i) \o <<at>> \o BE(hm, 2) \o Fill(hm, i + 3)
Rec(i, nn, at, hm) == [k |-> "rec", b |-> RecAuth(i, nn, at, hm)]
Pw(s) == [k |-> "pw", b |-> s]
RawP(n) == [k |-> "raw", n |-> n]
B2P == [k |-> "b2", n |-> 0]
Rsp(tag, rc, body) == tag \o BE(10 + Len(body), 4) \o rc \o body
ARsp(nn, at, hm, s) == BE(nn, 2) \o Fill(nn, s) \o <<at>> \o BE(hm, 2) \o Fill(hm, s + 1)
PwRsp == ARsp(0, 1, 0, 0)
\* what session i's peer answers
Answer(s, i) == IF s.k = "pw" THEN PwRsp ELSE ARsp((i * 7) % 20, 16 * i + 1, (i * 5) % 33, i)
Answers(ss) == Cat([i \in 1..Len(ss) |-> Answer(ss[i], i)])
OkBody(ss, rh, pb) == rh \o (IF ss = <<>> THEN <<>> ELSE BE(Len(pb), 4)) \o pb \o Answers(ss)
TagOf(ss) == IF ss = <<>> THEN NoSess ELSE WithSess
OkRsp(ss, rh, pb) == Rsp(TagOf(ss), Zero4, OkBody(ss, rh, pb))
AllOk(ss) == [i \in 1..Len(ss) |-> TRUE]
Step(cmd, h, p, rh, rp, resp, n, verd) ==
  [cmd |-> cmd, h |-> h, p |-> p, pfail |-> FALSE, bare |-> FALSE, rh |-> rh, rp |-> rp, fail |-> FALSE, resp |-> resp, n |-> n, verd |-> verd,
   off |-> IF (n + Len(p)) % 3 = 0 THEN 10 + (n % 7) ELSE 0]   \* where in the response buffer the connection puts the response
Hist(ss, steps) == [op |-> "hist", sess |-> ss, steps |-> steps]
One(ss, st) == Hist(ss, <<st>>)

SessSets == << <<>>,
  <<Rec(1, 0, 0, 0)>>, <<Pw(<<>>)>>, <<Pw(Fill(64, 9))>>, <<Rec(1, 64, 255, 64)>>,
  <<Rec(1, 3, 1, 2), Rec(2, 0, 97, 20)>>, <<Pw(Fill(5, 1)), Rec(2, 16, 1, 32)>>, <<Rec(1, 16, 1, 32), Pw(<<1>>)>>,
  <<Rec(1, 0, 1, 0), Rec(2, 1, 2, 1), Rec(3, 2, 4, 2)>>, <<Rec(1, 64, 1, 64), Rec(2, 64, 2, 64), Rec(3, 64, 4, 64)>>,
  <<Pw(<<9, 9>>), Pw(<<8>>), Pw(<<>>)>> >>

\* --- frames (C07) --------------------------------------------------------------
AuthLen(ss) == IF ss = <<>> THEN 0 ELSE 4 + SumOf([i \in 1..Len(ss) |-> IF ss[i].k = "pw" THEN Len(PasswordAuth(ss[i].b)) ELSE Len(ss[i].b)])
\* handle and parameter lengths so that each part of the frame crosses the end of the buffer
Shapes(ss) ==
  LET a == AuthLen(ss) room == CmdCap - 10 IN
  << <<0, 0>>, <<4, 0>>, <<0, 2>>, <<8, 13>>, <<12, 300>>, <<4, 1000>> >>
  \o Cat([d \in 1..5 |-> << <<8, room - a - 8 + d - 3>>, <<0, room - a + d - 3>>, <<room - a + d - 3, 0>>, <<room - a + d - 3, 4>> >>])
  \o << <<4, 5000>>, <<5000, 4>>, <<room, 0>>, <<room + 1, 0>>, <<room - 1, 0>>, <<room - 2, 0>>, <<room - 3, 0>>, <<room - 4, 0>>, <<room - 5, 0>>, <<room - 6, 1>>, <<room - 13, 0>>, <<room - 20, 0>>,
        <<room - 40, 0>>, <<room - 60, 0>>, <<room - 150, 0>>, <<room - 300, 0>> >>
FrameCases == Cat([x \in 1..Len(SessSets) |->
  LET ss == SessSets[x] sh == TLCEval(Shapes(ss)) IN
  [j \in 1..Len(sh) |-> LET r == TLCEval(OkRsp(ss, <<>>, <<>>)) IN
     One(ss, Step(IF j % 2 = 0 THEN "DynA" ELSE "DynB", Fill(sh[j][1], j), Fill(sh[j][2], j + 1), 0, RawP(0), r, Len(r), AllOk(ss)))]])
FailCases == [x \in 1..Len(SessSets) |-> One(SessSets[x],
   [Step("DynA", Fill(4, x), Fill(7, x), 0, RawP(0), OkRsp(SessSets[x], <<>>, <<>>), 10, AllOk(SessSets[x])) EXCEPT !.pfail = TRUE])]
BareCases == [x \in 1..6 |-> LET r == OkRsp(<<>>, <<>>, Fill(x, x)) IN
   One(<<>>, [Step(IF x % 2 = 0 THEN "DynA" ELSE "DynB", <<>>, Fill(x * x, x), 0, RawP(x), r, Len(r), <<>>) EXCEPT !.bare = TRUE])]

\* --- responses (C08) -------------------------------------------------------------
SizeVals(n) == <<BE(0, 4), BE(9, 4), BE(10, 4), BE(n - 1, 4), BE(n + 1, 4), BE(n + 2, 4), BE(4096, 4), BE(4097, 4), BE(65536 + n, 4), <<128, 0, 0, n % 256>>, <<1, 0, 0, n % 256>>, <<255, 255, 255, 255>>>>
Rcs == << <<0,0,0,1>>, <<0,0,1,0>>, <<0,0,1,1>>, <<0,0,1,67>>, <<0,0,9,34>>, <<0,0,0,149>>, <<0,0,255,255>>, <<0,1,0,0>>, <<1,0,0,0>>, <<128,0,0,0>>, <<255,255,255,255>>, <<0,0,8,0>>, <<0,0,9,0>> >>
SetAt(s, i, v) == [x \in 1..Len(s) |-> IF x >= i /\ x < i + Len(v) THEN v[x - i + 1] ELSE s[x]]
\* responses for sessions ss, handle bytes rh, parameter bytes pb: <<bytes in the buffer, bytes delivered>>
Faults(ss, rh, pb) ==
  LET body == TLCEval(OkBody(ss, rh, pb)) tag == TagOf(ss) r == TLCEval(Rsp(tag, Zero4, body)) n == Len(r)
      other == IF ss = <<>> THEN WithSess ELSE NoSess
      psAt == 11 + Len(rh)
      whole(b) == <<b, Len(b)>> IN
  <<whole(r)>>
  \* cut short, the rest stale in the buffer; size field as sent, or as delivered
  \o [k \in 1..n |-> <<r, k - 1>>]
  \o [k \in 1..(IF n > 10 THEN n - 10 ELSE 0) |-> LET c == SetAt(r, 3, BE(9 + k, 4)) IN <<c, 9 + k>>]
  \o [k \in 1..(IF n > 10 THEN n - 10 ELSE 0) |-> LET c == SetAt(r, 3, BE(9 + k, 4)) IN whole(SubSeq(c, 1, 9 + k))]
  \* too long
  \o [k \in 1..4 |-> whole(SetAt(r \o Fill(k, 3), 3, BE(n + k, 4)))]
  \o [k \in 1..4 |-> whole(r \o Fill(k, 3))]
  \o [k \in 1..4 |-> whole(SetAt(r \o PwRsp, 3, BE(n + k + 1, 4)))]
  \o <<whole(SetAt(r \o PwRsp, 3, BE(n + 5, 4))), whole(r \o r), <<r \o r, n>>>>
  \* size field
  \o LET s == SizeVals(n) IN [k \in 1..Len(s) |-> whole(SetAt(r, 3, s[k]))]
  \* size field says more than delivered, and the buffer holds it
  \o [k \in 1..3 |-> <<SetAt(r \o Fill(k, 5), 3, BE(n + k, 4)), n>>]
  \* parameter size
  \o (IF ss = <<>> THEN <<>> ELSE
        LET v == <<Len(pb) - 1, Len(pb) + 1, 0, Len(pb) + 5, Len(pb) + Len(Answers(ss)), 70000, 65536 + Len(pb)>> IN
        [k \in 1..Len(v) |-> whole(SetAt(r, psAt, IF v[k] < 0 THEN <<255,255,255,255>> ELSE BE(v[k], 4)))]
        \o <<whole(SetAt(r, psAt, <<128, 0, 0, Len(pb)>>)), whole(SetAt(r, psAt, <<255, 255, 255, 255>>))>>)
  \* tags
  \o <<whole(SetAt(r, 1, other)), whole(SetAt(r, 1, <<0, 196>>)), whole(SetAt(r, 1, <<0, 0>>)), whole(SetAt(r, 1, <<255, 255>>)),
       whole(Rsp(other, Zero4, rh \o (IF ss = <<>> THEN BE(Len(pb), 4) ELSE <<>>) \o pb \o Answers(ss)))>>
  \* missing or extra authorization responses
  \o (IF ss = <<>> THEN <<>> ELSE <<whole(Rsp(tag, Zero4, rh \o BE(Len(pb), 4) \o pb)), whole(Rsp(tag, Zero4, rh \o BE(Len(pb), 4) \o pb \o Answers(SubSeq(ss, 1, Len(ss) - 1)))),
        whole(Rsp(NoSess, Zero4, rh \o pb)), whole(Rsp(NoSess, Zero4, rh \o pb \o Answers(ss)))>>)
  \o <<whole(Rsp(tag, Zero4, body \o ARsp(1, 1, 1, 1))), whole(Rsp(tag, Zero4, body \o PwRsp))>>
  \* failure codes, with and without a body, with a wrong size, cut
  \o Cat([k \in 1..Len(Rcs) |-> <<whole(Rsp(NoSess, Rcs[k], <<>>)), whole(Rsp(tag, Rcs[k], body))>>])
  \o <<whole(SetAt(Rsp(NoSess, <<0,0,1,1>>, <<>>), 3, BE(11, 4))), whole(SetAt(Rsp(WithSess, <<0,0,1,1>>, <<>>), 3, BE(5000, 4))), whole(SetAt(Rsp(NoSess, <<0,0,1,1>>, <<>>), 3, BE(0, 4))), <<Rsp(NoSess, <<0,0,1,1>>, <<>>), 9>>,
       <<Rsp(NoSess, <<0,0,1,1>>, <<>>), 8>>, <<Rsp(NoSess, <<0,0,1,1>>, Fill(20, 1)), 10>>, <<Rsp(NoSess, Zero4, <<>>), 10>>>>
RespShapes == << <<0, RawP(0), <<>>>>, <<4, RawP(3), <<1, 2, 3>>>>, <<4, B2P, <<0, 4, 9, 8, 7, 6>>>>, <<0, B2P, <<0, 0>>>>, <<8, RawP(0), <<>>>> >>
FaultSess == IF Deep THEN SessSets ELSE <<SessSets[1], SessSets[2], SessSets[4], SessSets[6], SessSets[7], SessSets[9]>>
FaultCases == Cat([x \in 1..Len(FaultSess) |-> Cat([y \in 1..Len(RespShapes) |->
  IF ~Deep /\ (x + y) % 2 = 0 /\ y > 1 THEN <<>> ELSE
  LET ss == FaultSess[x] sh == RespShapes[y] f == TLCEval(Faults(ss, Fill(sh[1], 77), sh[3])) IN
  [j \in 1..Len(f) |-> One(ss, Step("DynA", Fill(4, j), Fill(j % 5, 2), sh[1], sh[2], f[j][1], f[j][2], AllOk(ss)))]])])
\* every combination of tag, parameter size, number of authorization responses and trailing bytes, sized consistently
Products == Cat([x \in 1..Len(FaultSess) |-> Cat([y \in 1..(IF Deep THEN Len(RespShapes) ELSE 3) |->
  LET ss == FaultSess[x] sh == RespShapes[y] pb == sh[3] rh == Fill(sh[1], 78)
      tags == <<NoSess, WithSess, <<0, 196>>, <<128, 3>>, <<1, 128>> >>
      ps == << <<>>, BE(Len(pb), 4), BE(Len(pb) + 1, 4), Zero4 >>
      full == TLCEval([i \in 1..Len(ss) |-> Answer(ss[i], i)]) \o <<PwRsp, ARsp(2, 1, 3, 4)>> IN
  Cat([t \in 1..Len(tags) |-> Cat([q \in 1..Len(ps) |-> Cat([n \in 1..(Len(full) + 1) |-> [k \in 1..4 |->
     LET r == TLCEval(Rsp(tags[t], Zero4, rh \o ps[q] \o pb \o Cat(SubSeq(full, 1, n - 1)) \o [z \in 1..(<<0, 1, 4, 6>>)[k] |-> 0])) IN
     One(ss, Step("DynB", Fill(n, 3), Fill(k, 2), sh[1], sh[2], r, Len(r), AllOk(ss)))]])])])])])
\* largest responses
BigCases == [j \in 1..6 |-> LET n == 4096 - 4 + j IN
  One(<<>>, Step("DynA", <<>>, <<>>, 0, RawP(n - 10), Rsp(NoSess, Zero4, Fill(n - 10, j)), IF n > 4096 THEN 4096 ELSE n, <<>>))]
ConnCases == Cat([x \in 1..Len(SessSets) |-> <<One(SessSets[x],
   [Step("DynB", Fill(4, x), Fill(3, x), 0, RawP(0), OkRsp(SessSets[x], <<>>, <<>>), Len(OkRsp(SessSets[x], <<>>, <<>>)), AllOk(SessSets[x])) EXCEPT !.fail = TRUE])>>])

\* --- sessions (C09) ----------------------------------------------------------------
VerdCases == Cat([x \in 1..Len(SessSets) |->
  LET ss == SessSets[x] r == TLCEval(OkRsp(ss, Fill(4, 5), Fill(2, 1)))
      vs == TLCEval(SetToSeq([1..Len(ss) -> BOOLEAN])) IN
  [j \in 1..Len(vs) |-> One(ss, Step("DynA", <<>>, <<1>>, 4, RawP(2), r, Len(r), [i \in 1..Len(ss) |-> vs[j][i]]))]])
\* authorization responses swapped, oversized or of every content
WithAuths(ss, as) == Rsp(WithSess, Zero4, BE(2, 4) \o <<5, 6>> \o Cat(as))
AStep(ss, as) == LET r == WithAuths(ss, as) IN Step("DynA", <<>>, <<1>>, 0, RawP(2), r, Len(r), AllOk(ss))
PwSolo == <<Pw(<<1, 2>>)>>
PwCases ==
  [a \in 1..256 |-> One(PwSolo, AStep(PwSolo, <<ARsp(0, a - 1, 0, 1)>>))]
  \o Cat([x \in 1..6 |-> LET ns == <<0, 1, 2, 32, 63, 64>> IN
       Cat([y \in 1..6 |-> [a \in 1..4 |-> One(PwSolo, AStep(PwSolo, <<ARsp(ns[x], <<1, 0, 3, 255>>[a], ns[y], 1)>>))]])])
  \o Cat([k \in 1..3 |-> [v \in 1..5 |->
       LET ss == [i \in 1..3 |-> IF i = k \/ v = 5 THEN Pw(<<i>>) ELSE Rec(i, 1, 1, 1)]
           bad == <<ARsp(0, 0, 0, 1), ARsp(0, 1, 1, 1), ARsp(1, 1, 0, 1), PwRsp, ARsp(0, 129, 0, 1)>>[v] IN
       One(ss, AStep(ss, [i \in 1..3 |-> IF i = k THEN bad ELSE Answer(ss[i], i)]))]])
  \o [v \in 1..6 |-> LET ss == <<Rec(1, 1, 1, 1), Rec(2, 2, 2, 2), Rec(3, 3, 3, 3)>>
       a == <<ARsp(65, 1, 0, 1), ARsp(0, 1, 65, 1), ARsp(64, 1, 64, 1), ARsp(0, 0, 0, 0), ARsp(1, 2, 3, 4), <<255, 255>>>>[v] IN
       One(ss, AStep(ss, <<Answer(ss[1], 1), a, Answer(ss[3], 3)>>))]
\* password answers whose contents are all zeros, all ones, zeros with one bit, at every length, alone and among others
ARspC(nn, at, hm, c, z) == BE(nn, 2) \o [x \in 1..nn |-> IF x = nn THEN z ELSE c] \o <<at>> \o BE(hm, 2) \o [x \in 1..hm |-> IF x = hm THEN z ELSE c]
PwContent == Cat([v \in 1..4 |-> LET c == <<0, 255, 0, 1>>[v] z == <<0, 255, 1, 0>>[v] IN
     Cat([n \in 1..64 |-> << One(PwSolo, AStep(PwSolo, <<ARspC(n, 1, 0, c, z)>>)), One(PwSolo, AStep(PwSolo, <<ARspC(0, 1, n, c, z)>>)),
                             One(PwSolo, AStep(PwSolo, <<ARspC(n, 1, n, c, z)>>)), One(PwSolo, AStep(PwSolo, <<ARspC(n, 0, n, c, z)>>)) >>])
     \o Cat([k \in 1..3 |-> Cat([j \in 1..4 |-> LET n == <<1, 20, 32, 64>>[j]
            ss == [i \in 1..3 |-> IF i = k THEN Pw(<<>>) ELSE IF v % 2 = 0 THEN Pw(<<i>>) ELSE Rec(i, 1, 1, 1)] IN
        [w \in 1..2 |-> One(ss, AStep(ss, [i \in 1..3 |-> IF i = k THEN ARspC(IF w = 1 THEN n ELSE 0, 1, IF w = 1 THEN 0 ELSE n, c, z) ELSE Answer(ss[i], i)]))]])])])
\* histories: the same sessions through several commands with different outcomes
HistOf(ss, w) == Hist(ss, [j \in 1..Len(w) |->
   LET r == OkRsp(ss, Fill(4, j), Fill(2, j)) IN
   CASE w[j] = "ok" -> Step("DynA", Fill(4, j), Fill(j, j), 4, RawP(2), r, Len(r), AllOk(ss))
     [] w[j] = "rc" -> Step("DynB", Fill(8, j), Fill(j, j), 4, RawP(2), Rsp(NoSess, <<0, 0, 9, 1>>, <<>>), 10, AllOk(ss))
     [] w[j] = "cut" -> Step("DynA", Fill(4, j), <<>>, 4, RawP(2), r, Len(r) - 1, AllOk(ss))
     [] w[j] = "conn" -> [Step("DynA", <<>>, Fill(j, j), 4, RawP(2), r, Len(r), AllOk(ss)) EXCEPT !.fail = TRUE]
     [] w[j] = "big" -> Step("DynA", Fill(4090, j), <<>>, 4, RawP(2), r, Len(r), AllOk(ss))
     [] w[j] = "veto" -> Step("DynB", <<>>, <<>>, 4, RawP(2), r, Len(r), [i \in 1..Len(ss) |-> i # Len(ss)])])
HistWords == SetToSeq([1..(IF Deep THEN 3 ELSE 2) -> {"ok", "rc", "cut", "conn", "big", "veto"}])
HistCases == Cat([x \in 1..4 |-> LET ss == <<SessSets[1], SessSets[4], SessSets[6], SessSets[9]>>[x] IN
   [w \in 1..Len(HistWords) |-> HistOf(ss, HistWords[w] \o <<"ok">>)]])
SecretCases == LET s == <<0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 100, 128, 255, 256, 320, 65536, 65600, 65537>> IN
   [j \in 1..Len(s) |-> [op |-> "secret", n |-> s[j], salt |-> j, sess |-> <<>>, steps |-> <<>>]]
   \o Cat([k \in 1..7 |-> [n \in 1..70 |-> [op |-> "secret", n |-> n - 1, salt |-> 999 + k, sess |-> <<>>, steps |-> <<>>]]])
\* a password of every length in a frame
PwFrames == [n \in 1..65 |-> LET ss == <<Pw(Fill(n - 1, n))>> r == TLCEval(OkRsp(ss, <<>>, <<>>)) IN
   One(ss, Step("DynA", Fill(4, n), Fill(n % 7, n + 1), 0, RawP(0), r, Len(r), AllOk(ss)))]
\* --- sweeps: one command for every length of handles, parameters, response; every response code ---
Sweep(what, ss, h, p, rh, from, to, mul, add) ==
  [op |-> "sweep", what |-> what, sess |-> ss, h |-> h, p |-> p, rh |-> rh, from |-> from, to |-> to, mul |-> mul, add |-> add,
   pre |-> TagOf(ss) \o BE(0, 4) \o Zero4 \o Fill(rh, 5) \o (IF ss = <<>> THEN <<>> ELSE BE(0, 4)), post |-> Answers(ss),
   psat |-> IF ss = <<>> THEN 0 ELSE 11 + rh]
Top == IF Deep THEN 9000 ELSE 4400
FrameSweeps == <<Sweep("plen", <<>>, 0, 0, 0, 0, Top, 0, 0), Sweep("plen", SessSets[4], 4, 0, 0, 0, Top, 0, 0), Sweep("plen", SessSets[9], 8, 0, 4, 0, Top, 0, 0),
                 Sweep("hlen", SessSets[6], 0, 5, 0, 0, Top, 0, 0), Sweep("hlen", <<>>, 0, 0, 0, 0, Top, 0, 0)>>
RespSweeps == <<Sweep("rlen", <<>>, 0, 3, 0, 0, Top, 0, 0), Sweep("rlen", SessSets[2], 4, 1, 4, 0, Top, 0, 0), Sweep("rlen", SessSets[11], 0, 1, 0, 0, Top, 0, 0),
                Sweep("rlen", SessSets[9], 0, 1, 8, 0, Top, 0, 0),
                Sweep("rc", <<>>, 0, 1, 0, 1, 65535, 1, 0), Sweep("rc", SessSets[2], 0, 1, 0, 1, 65535, 1, 0), Sweep("rc", <<>>, 0, 1, 0, 1, 65535, 65536, 0),
                Sweep("rc", <<>>, 0, 1, 0, 0, 65535, 65536, 257), Sweep("rc", <<>>, 0, 1, 0, 0, 65535, 65536, 2338), Sweep("rc", <<>>, 0, 1, 0, 1, 65535, 65537, 0)>>

\* --- the real commands ---------------------------------------------------------------
Real == << <<"GetRandomCmd", "GetRandomResp">>, <<"StartupCmd", "TpmsEmpty">>, <<"PcrReadCmd", "PcrReadResp">>, <<"GetCapabilityCmd", "GetCapabilityResp">>, <<"get_capability", "GetCapabilityResp">> >>
CmdT(c) == TypeOf(IF c = "get_capability" THEN "GetCapabilityCmd" ELSE c)
RealCases == Cat([x \in 1..Len(Real) |->
  LET c == Real[x][1] cs == TLCEval(Good(CmdT(c))) g == TLCEval(Good(TypeOf(Real[x][2]))) b == TLCEval(Bad(TypeOf(Real[x][2])))
      rp == [k |-> "real", n |-> 0, t |-> Real[x][2]]
      mk(j, body, bare, ss) == LET pb == Paint(body, j) r == Rsp(TagOf(ss), Zero4, OkBody(ss, <<>>, pb)) IN
          IF Len(r) > 4096 THEN <<>> ELSE
          <<One(ss, [Step(c, <<>>, Paint(At(cs, j), j), 0, rp, r, Len(r), AllOk(ss)) EXCEPT !.bare = bare]),
            One(ss, [Step(c, <<>>, Paint(At(cs, j), j), 0, rp, r, Len(r) - 1, AllOk(ss)) EXCEPT !.bare = bare]),
            One(ss, [Step(c, <<>>, Paint(At(cs, j), j), 0, rp, SetAt(r, 7, <<0, 0, 1, j % 200>>), Len(r), AllOk(ss)) EXCEPT !.bare = bare])>>
  IN Cat([j \in 1..Len(g) |-> mk(j, g[j], c = "get_capability" \/ j % 2 = 0, <<>>)])
     \o Cat([j \in 1..Len(b) |-> mk(j, b[j], c = "get_capability" \/ j % 2 = 0, <<>>)])
     \o (IF c = "get_capability" THEN <<>> ELSE Cat([j \in 1..Len(g) |-> mk(j, g[j], FALSE, SessSets[(j % 3) + 2])]))
     \o (IF c = "get_capability" THEN <<>> ELSE [j \in 1..Len(cs) |-> LET r == OkRsp(<<>>, <<>>, <<>>) IN
           One(<<>>, Step(c, <<>>, Paint(cs[j], j), 0, rp, r, Len(r), <<>>))])])

Cases == CASE IOEnv.VERIF_PART = "0" -> FrameCases \o FailCases \o BareCases \o PwFrames \o FrameSweeps
           [] IOEnv.VERIF_PART = "1" -> FaultCases \o Products \o BigCases \o ConnCases \o RespSweeps
           [] IOEnv.VERIF_PART = "2" -> VerdCases \o PwCases \o PwContent \o HistCases \o SecretCases
           [] IOEnv.VERIF_PART = "3" -> RealCases
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
