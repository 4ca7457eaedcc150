------------------------------- MODULE GenTcp -------------------------------
(* Histories of operations against a scripted simulator.  Every exchange of the
   script says how many bytes to wait for, what to answer in which pieces, how
   long to hold the answer back, and whether the connection ends after it.      *)
EXTENDS Tcp, Json, IOUtils, FiniteSets
CONSTANT Deep
Cat(ss) == LET t == TLCEval(ss) IN FoldLeft(LAMBDA x, y : TLCEval(x \o y), <<>>, t)
O(f, a, cap, name) == [f |-> f, a |-> a, cap |-> cap, name |-> name]
\* an answer: pieces, delay, end
A(chunks, slow, end) == [chunks |-> chunks, slow |-> slow, end |-> end]
Whole(b) == A(<<b>>, 0, "keep")
Bytes(b) == A([x \in 1..Len(b) |-> <<b[x]>>], 0, "keep")
Cut(b, k) == A(<<SubSeq(b, 1, k), SubSeq(b, k + 1, Len(b))>>, 0, "keep")
Slow(b) == A(<<b>>, 25, "keep")
Fin(b) == A(IF b = <<>> THEN <<>> ELSE <<b>>, 0, "fin")
\* op with answers ans to its first Len(ans) exchanges; less: how many bytes of the last request are left unread
OpL(op, loc, ans, less) == LET p == TLCEval(Prog(op, loc)) IN
  [f |-> op.f, a |-> op.a, cap |-> op.cap, name |-> op.name,
   x |-> [j \in 1..Len(ans) |-> [port |-> p[j].port, want |-> Len(p[j].send) - (IF j = Len(ans) THEN less ELSE 0),
                                 chunks |-> ans[j].chunks, slow |-> ans[j].slow, end |-> ans[j].end]]]
Op(op, loc, ans) == OpL(op, loc, ans, 0)
Case(p, how, ops) == [p |-> p, connect |-> how, ops |-> ops]
\* response length for a command of n bytes: a * n + b
Sweep(from, to, a, b, slack, loc) == [p |-> "C15", connect |-> "ports", ops |-> <<>>, sweep |-> [from |-> from, to |-> to, a |-> a, b |-> b, slack |-> slack, loc |-> loc]]
C16(ops) == Case("C16", "ports", ops)
C15(ops) == Case("C15", "ports", ops)
Pt(n, z) == [x \in 1..n |-> (x * 37 + (x \div 256) * 11 + z * 53 + 129) % 256]
W1 == <<0, 0, 0, 5>>
W2 == <<254, 220, 186, 152>>
Dat(recv, z) == CASE recv = "ack" -> <<>> [] recv = "four" -> Pt(4, z) [] recv = "eight" -> Pt(8, z) [] recv = "sizes" -> BE(16, 4) \o Pt(16, z) [] recv = "none" -> <<>>
Good(recv, z) == IF recv = "none" THEN <<>> ELSE Dat(recv, z) \o Zero4
Bads == << <<0,0,0,1>>, <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,128,0>>, <<255,255,255,255>> >>
Names == SetToSeq(DOMAIN Signals)
Single == [i \in 1..Len(Names) |-> O("signal", <<>>, 0, Names[i])]
  \o <<O("failure", <<>>, 0, ""), O("sizes", <<>>, 0, ""), O("act", W1, 0, ""), O("act", W2, 0, ""), O("hash", W2, 0, ""), O("svn", W1, 0, ""), O("svn", W2, 0, ""),
       O("handshake", W1, 0, ""), O("handshake", W2, 0, ""), O("alt", W2, 0, ""), O("alt", W1, 0, "")>>
Multi == <<O("reinit", <<>>, 0, ""), O("hcrtm", <<>>, 0, ""), O("hcrtm", <<9>>, 0, ""), O("hcrtm", Pt(5, 3), 0, ""), O("hcrtm", Pt(1000, 3), 0, ""), O("hcrtm", Pt(70000, 3), 0, "")>>
Goods(op, n, mk(_)) == LET p == Prog(op, 0) IN [j \in 1..n |-> mk(Good(p[j].recv, j))]
Full(op, mk(_)) == Op(op, 0, Goods(op, Len(Prog(op, 0)), mk))
FullW(op) == Full(op, Whole)
\* op with the last answer of its first n replaced
Faulty(op, n, a, less) == OpL(op, 0, Goods(op, n - 1, Whole) \o <<a>>, less)
Sequel == <<FullW(O("handshake", <<1, 2, 3, 4>>, 0, "")), FullW(O("signal", <<>>, 0, "Restart")), FullW(O("sizes", <<>>, 0, ""))>>
Faults(op) == LET n == Len(Prog(op, 0)) IN Cat([s \in 1..n |->
   LET r == Prog(op, 0)[s].recv g == TLCEval(Good(r, s)) d == TLCEval(Dat(r, s)) IN
   [b \in 1..Len(Bads) |-> C16(<<Faulty(op, s, Whole(d \o Bads[b]), 0)>> \o Sequel)]
   \o [k \in 1..Len(g) |-> C16(<<Faulty(op, s, Fin(SubSeq(g, 1, k - 1)), 0)>>)]
   \o <<C16(<<Faulty(op, s, A(<<>>, 0, "drop"), 1)>>), C16(<<Faulty(op, s, A(<<>>, 0, "drop"), 0)>>)>>
   \o (IF r = "sizes" THEN [b \in 1..7 |-> C16(<<Faulty(op, s, Fin((<<<<0,0,0,15>>, <<0,0,0,17>>, Zero4, <<0,1,0,16>>, <<16,0,0,0>>, <<255,255,255,255>>, <<0,0,0,32>> >>)[b] \o Pt(16, 1) \o Zero4), 0)>>)] ELSE <<>>)])
Ends == <<O("end", <<>>, 0, ""), O("stop", <<>>, 0, "")>>
Ops16 == Single \o Multi
\* the peer resets one of the connections; every later operation, ending the session included, says so
AllOps == Ops16 \o Ends \o <<O("transact", Pt(12, 4), 64, "")>>
Kill(q) == IF q = "tpm" THEN OpL(O("handshake", W1, 0, ""), 0, <<A(<<>>, 0, "reset")>>, 1)
           ELSE OpL(O("act", W1, 0, ""), 0, <<A(<<>>, 0, "reset")>>, 1)
\* the exchanges of op that take place when port q is dead
Alive(op, q) == LET p == Prog(op, 0) IN Cardinality({j \in 1..Len(p) : \A i \in 1..j : p[i].port # q})
Resets == Cat([d \in 1..2 |-> LET q == (<<"tpm", "plat">>)[d] IN
  [i \in 1..Len(AllOps) |-> LET op == AllOps[i] IN
     C16(<<Kill(q)>> \o (IF op.f = "transact" /\ q = "plat" THEN <<Op(op, 0, <<Whole(BE(3, 4) \o <<7, 7, 7>> \o Zero4)>>)>>
                         ELSE <<Op(op, 0, Goods(op, Alive(op, q), Whole))>>)
         \o (IF op.f \in {"end", "stop"} THEN <<>> ELSE <<Op(Ends[d], 0, Goods(Ends[d], Alive(Ends[d], q), Whole))>>))]])
\* the peer closes one of the connections after a complete answer
Close(q) == Op(IF q = "tpm" THEN O("handshake", W1, 0, "") ELSE O("act", W1, 0, ""), 0, <<A(<<Good(IF q = "tpm" THEN "eight" ELSE "four", 1)>>, 0, "drop")>>)
Closed == Cat([d \in 1..2 |-> LET q == (<<"tpm", "plat">>)[d] IN
  [i \in 1..Len(AllOps) |-> LET op == AllOps[i] IN
     C16(<<Close(q)>> \o (IF op.f = "transact" /\ q = "plat" THEN <<Op(op, 0, <<Whole(BE(3, 4) \o <<7, 7, 7>> \o Zero4)>>)>>
                         ELSE <<Op(op, 0, Goods(op, Alive(op, q), Whole))>>))]])
Control == Cat([i \in 1..Len(Ops16) |-> LET op == Ops16[i] IN
     <<C16(<<FullW(op)>>), C16(<<Full(op, Slow)>> \o Sequel), C16(<<Full(op, Bytes)>> \o <<FullW(op)>>)>> \o (IF Len(op.a) < 1000 THEN Faults(op) ELSE <<>>)])
  \o Cat([i \in 1..2 |-> <<C16(<<FullW(Ends[i])>>), C16(Sequel \o <<FullW(Ends[i])>>), Case("C16", "retries", <<FullW(Ends[i])>>), Case("C16", "default", Sequel \o <<FullW(Ends[i])>>)>>])
  \o Resets \o Closed
  \o <<Case("C16", "notpm", <<>>), Case("C16", "noplat", <<>>), Case("C16", "default", <<>>)>>

\* --- commands ---
T(a, cap) == O("transact", a, cap, "")
Resp(b) == BE(Len(b), 4) \o b \o Zero4
Lens == <<0, 1, 2, 10, 12, 100, 255, 256, 4096, 65535, 65536, 70000>>
Caps == <<0, 1, 2, 9, 10, 100, 255, 256, 4096, 65536>>
Frames == [i \in 1..Len(Lens) |-> C15(<<Op(T(Pt(Lens[i], 1), 64), 0, <<Whole(Resp(Pt(12, 2)))>>), Op(T(Pt(4, 3), 64), 0, <<Whole(Resp(Pt(7, 4)))>>)>>)]
Fits == Cat([i \in 1..Len(Caps) |-> Cat([d \in 1..5 |-> LET n == Caps[i] + (<<-1, 0, 1, 2, 700>>)[d] IN
   IF n < 0 THEN <<>> ELSE <<C15(<<Op(T(<<1, 2>>, Caps[i]), 0, <<Whole(Resp(Pt(n, d)))>>), Op(T(<<3>>, 20), 0, <<Whole(Resp(Pt(9, 6)))>>)>>)>>])])
Splits == LET r == TLCEval(Resp(Pt(6, 1))) IN [k \in 1..(Len(r) - 1) |-> C15(<<Op(T(<<4, 5, 6>>, 6), 0, <<Cut(r, k)>>), Op(T(<<7>>, 3), 0, <<Cut(Resp(<<8, 9, 9>>), 5)>>)>>)]
  \o [k \in 1..(Len(r) - 1) |-> C15(<<Op(T(<<4, 5, 6>>, 5), 0, <<Cut(r, k)>>), Op(T(<<7>>, 3), 0, <<Whole(Resp(<<8, 9, 9>>))>>)>>)]
TFaults == LET r == TLCEval(Resp(Pt(6, 1))) o == T(<<4, 5, 6>>, 6) small == T(<<4, 5, 6>>, 5)
               again == <<Op(T(<<7, 7>>, 8), 0, <<Whole(Resp(Pt(8, 5)))>>)>> IN
  [k \in 1..Len(r) |-> C15(<<Op(o, 0, <<Fin(SubSeq(r, 1, k - 1))>>)>>)]
  \o [k \in 1..Len(r) |-> C15(<<Op(small, 0, <<Fin(SubSeq(r, 1, k - 1))>>)>>)]
  \o [b \in 1..Len(Bads) |-> C15(<<Op(o, 0, <<Whole(BE(6, 4) \o Pt(6, 1) \o Bads[b])>>)>> \o again)]
  \o [b \in 1..Len(Bads) |-> C15(<<Op(small, 0, <<Whole(BE(6, 4) \o Pt(6, 1) \o Bads[b])>>)>> \o again)]
  \o [b \in 1..4 |-> C15(<<Op(o, 0, <<Fin((<< <<255,255,255,255>>, <<128,0,0,6>>, <<127,255,255,255>>, <<6,0,0,0>> >>)[b] \o Pt(20, 1))>>)>>)]
  \o <<C15(<<OpL(o, 0, <<A(<<>>, 0, "drop")>>, 1)>>), C15(<<OpL(o, 0, <<A(<<>>, 0, "drop")>>, 0)>>), C15(<<Op(o, 0, <<Slow(r)>>), Op(o, 0, <<Slow(r)>>)>>)>>
\* words over recoverable situations; the locality is carried along
Letters == <<"ok", "big", "bad", "empty", "loc1", "loc255", "shake", "sig", "bytes">>
LetterOp(w, loc, i) ==
  CASE w = "ok" -> Op(T(<<16, i % 256>>, 12), loc, <<Whole(Resp(Pt(12, i)))>>)
    [] w = "big" -> Op(T(<<17, i % 256>>, 12), loc, <<Whole(Resp(Pt(13 + 50 * (i % 20), i)))>>)
    [] w = "bad" -> Op(T(<<18, i>>, 12), loc, <<Whole(BE(3, 4) \o Pt(3, i) \o <<0, 0, i, 0>>)>>)
    [] w = "empty" -> Op(T(<<>>, 12), loc, <<Whole(Resp(<<>>))>>)
    [] w = "loc1" -> Op(O("locality", <<1>>, 0, ""), loc, <<>>)
    [] w = "loc255" -> Op(O("locality", <<255 - i>>, 0, ""), loc, <<>>)
    [] w = "shake" -> Op(O("handshake", <<9, 8, 7, i % 256>>, 0, ""), loc, <<Whole(Good("eight", i))>>)
    [] w = "sig" -> Op(O("signal", <<>>, 0, "PowerOn"), loc, <<Whole(Zero4)>>)
    [] w = "bytes" -> Op(T(<<19, i>>, 12), loc, <<Bytes(Resp(Pt(5, i)))>>)
LocAfter(w, loc, i) == CASE w = "loc1" -> 1 [] w = "loc255" -> 255 - i [] OTHER -> loc
WordOps(ws) == FoldLeft(LAMBDA a, i : [loc |-> LocAfter(ws[i], a.loc, i), ops |-> Append(a.ops, LetterOp(ws[i], a.loc, i))], [loc |-> 0, ops |-> <<>>], [i \in 1..Len(ws) |-> i])
Depth == IF Deep THEN 4 ELSE 3
Words == LET ws == TLCEval(SetToSeq([1..Depth -> 1..Len(Letters)])) IN
  [k \in 1..Len(ws) |-> C15(WordOps([i \in 1..Depth |-> Letters[ws[k][i]]] \o <<"ok">>).ops)]
\* long conversations on one connection, oversize responses and control operations among them
Long == [v \in 1..3 |-> LET len == IF Deep THEN 1500 ELSE 400 IN
  C15(WordOps([i \in 1..len |-> (<<"ok", "ok", "big", "shake", "ok", "empty", "ok", "sig", "loc1", "ok">>)[((i * (2 * v + 1)) % 10) + 1]] \o <<"ok">>).ops)]
\* control operations, also refused ones, between commands: they neither disturb the pairing nor the locality
Small16 == SelectSeq(Ops16, LAMBDA o : Len(o.a) < 1000)
Cmd(loc, z) == Op(T(Pt(3 + z, z), 9), loc, <<Whole(Resp(Pt(9, z)))>>)
SetLoc(x) == Op(O("locality", <<x>>, 0, ""), 0, <<>>)
Mixed == Cat([i \in 1..Len(Small16) |-> LET n == Len(Prog(Small16[i], 0)) IN
  [j \in 1..Len(Small16) |-> C15(<<SetLoc(j + 2), Cmd(j + 2, 1), FullW(Small16[i]), Cmd(j + 2, 2), FullW(Small16[j]), Cmd(j + 2, 3)>>)]
  \o [s \in 1..n |-> C15(<<SetLoc(201), Faulty(Small16[i], s, Whole(Dat(Prog(Small16[i], 0)[s].recv, s) \o Bads[1 + (i % Len(Bads))]), 0), Cmd(201, 2), Cmd(201, 3)>>)]])
\* every pair of control operations, and a command after them
Pairs == Cat([i \in 1..Len(Ops16) |-> [j \in 1..Len(Ops16) |-> C16(<<SetLoc(i), FullW(Ops16[i]), FullW(Ops16[j]), Cmd(i, 2)>>)]])
\* after every operation, successful or refused, the session can be ended, in any locality
EndAfter == Cat([e \in 1..2 |-> Cat([i \in 1..Len(Small16) |-> LET op == Small16[i] IN
   <<C16(<<SetLoc(i * 7), FullW(op), FullW(Ends[e])>>), C16(<<SetLoc(256 - i), Faulty(op, Len(Prog(op, 0)), Whole(Dat(Prog(op, 0)[Len(Prog(op, 0))].recv, 1) \o Bads[1 + (i % Len(Bads))]), 0), FullW(Ends[e])>>)>>])
   \o <<C16(<<SetLoc(5), Cmd(5, 2), FullW(Ends[e])>>), C16(<<SetLoc(255), Op(T(<<1, 2>>, 3), 255, <<Whole(Resp(Pt(40, 2)))>>), FullW(Ends[e])>>)>>])
\* faults of a response of n bytes into a buffer of cap bytes
RespFaults(n, cap) == LET r == TLCEval(Resp(Pt(n, 1))) o == T(<<4, 5, 6>>, cap) IN
  [k \in 1..Len(r) |-> C16(<<Op(o, 0, <<Fin(SubSeq(r, 1, k - 1))>>)>>)]
  \o [b \in 1..Len(Bads) |-> C16(<<Op(o, 0, <<Whole(BE(n, 4) \o Pt(n, 1) \o Bads[b])>>), Cmd(0, 2)>>)]
  \o <<C16(<<Op(o, 0, <<Bytes(r)>>), Cmd(0, 2)>>), C16(<<OpL(o, 0, <<A(<<>>, 0, "drop")>>, 1)>>)>>
TransactFaults == RespFaults(0, 0) \o RespFaults(0, 9) \o RespFaults(1, 1) \o RespFaults(1, 0) \o RespFaults(10, 10) \o RespFaults(10, 64) \o RespFaults(12, 10)
\* the length field of the sizes answer
SizeLens == [k \in 1..64 |-> C16(<<Faulty(O("sizes", <<>>, 0, ""), 1, Fin(BE(k - 1, 4) \o Pt(16, 1) \o Zero4), 0)>>)]
  \o [k \in 1..24 |-> C16(<<Faulty(O("sizes", <<>>, 0, ""), 1, Fin(SubSeq((<<0, 0, 0>> \o BE(2 ^ (k % 8), 1) \o <<0, 0, 0>>), 1 + (k \div 8), 4 + (k \div 8)) \o Pt(16, 1) \o Zero4), 0)>>)]
Top == IF Deep THEN 20000 ELSE 4400
\* one operation many times on one connection, a quantity taking the values i * mul + add for i in from..to
VX(p, z, bad) == [j \in 1..Len(p) |-> [port |-> p[j].port, send |-> p[j].send, data |-> Dat(p[j].recv, z), ack |-> IF j = Len(p) /\ bad THEN <<0, 0, 1, 0>> ELSE Zero4]]
VaryX(op, x, what, at, skip, loc, from, to, mul, add, bad) ==
  [p |-> "C16", connect |-> "ports", ops |-> <<>>, vary |-> [op |-> op, x |-> x, what |-> what, at |-> at, skip |-> skip, swap |-> op.f = "sizes", loc |-> loc,
     from |-> from, to |-> to, mul |-> mul, add |-> add, bad |-> bad]]
Vary(op, n, what, at, from, to, mul, add, bad) ==
  VaryX(op, VX(SubSeq(Prog(op, 0), 1, n), 1, bad), what, at, IF op.f = "sizes" THEN 4 ELSE 0, 6, from, to, mul, add, bad)
M1 == BE(1, 4)
Many == IF Deep THEN 20000 ELSE 600
Walks(op, n, what, at, bad) == <<Vary(op, n, what, at, 0, Many, M1, Zero4, bad), Vary(op, n, what, at, 1, 255, <<0, 0, 1, 0>>, Zero4, bad), Vary(op, n, what, at, 1, 255, <<0, 1, 0, 0>>, Zero4, bad),
  Vary(op, n, what, at, 1, 255, <<1, 0, 0, 0>>, Zero4, bad), Vary(op, n, what, at, 1, 255, <<1, 1, 1, 1>>, Zero4, bad), Vary(op, n, what, at, 0, Many, M1, <<64, 0, 0, 0>>, bad), Vary(op, n, what, at, 0, 300, M1, <<128, 40, 0, 200>>, bad)>>
H(a) == O("hcrtm", a, 0, "")
Varied == Cat([i \in 1..5 |-> LET op == O((<<"act", "hash", "svn", "handshake", "alt">>)[i], Zero4, 0, "") IN Walks(op, 1, "arg", 0, FALSE) \o <<Vary(op, 1, "arg", 0, 0, 300, M1, <<64, 0, 1, 0>>, TRUE)>>])
  \o Walks(O("act", W1, 0, ""), 1, "data", 0, FALSE) \o Walks(O("act", <<64, 0, 1, 16>>, 0, ""), 1, "data", 0, FALSE) \o Walks(O("handshake", W1, 0, ""), 1, "data", 0, FALSE) \o Walks(O("handshake", W1, 0, ""), 1, "data", 4, FALSE)
  \o Cat([j \in 1..4 |-> Walks(O("sizes", <<>>, 0, ""), 1, "data", 4 * j, FALSE)])
  \o Cat([i \in 1..Len(Small16) |-> LET op == Small16[i] n == Len(Prog(op, 0)) IN Cat([s \in 1..n |->
        IF s = n THEN Walks(op, s, "ack", 0, FALSE) ELSE Tail(Walks(op, s, "ack", 0, FALSE))])])
  \o <<Vary(H(<<>>), 3, "len", 0, 0, Top \div 2, M1, Zero4, FALSE), Vary(H(<<>>), 3, "len", 0, 0, Top \div 2, M1, Zero4, TRUE), Vary(H(<<>>), 2, "len", 0, 0, Top \div 2, M1, Zero4, TRUE), Vary(H(<<>>), 1, "len", 0, 0, 1200, M1, Zero4, TRUE),
       Vary(H(<<>>), 3, "len", 0, 65500, 65570, M1, Zero4, FALSE)>>
  \o [n \in 1..4 |-> LET k == (<<0, 1, 10, 300>>)[n] op == T(<<1, 2, 3>>, k) IN
        VaryX(op, <<[port |-> "tpm", send |-> Prog(op, 6)[1].send, data |-> BE(k, 4) \o Pt(k, 1), ack |-> Zero4]>>, "ack", 0, 4, 6, 1, 400, M1, Zero4, FALSE)]
Sweeps == <<Sweep(0, Top, 1, 0, 0, 0), Sweep(0, Top, 1, 3, -1, 4), Sweep(0, Top, 0, 10, 4086, 3), Sweep(10, 300, 17, 0, 1, 1), Sweep(65500, 65560, 1, 1, 0, 255), Sweep(131060, 131080, 1, 0, 0, 9)>>
Locs == [x \in 1..256 |-> C15(<<Op(O("locality", <<x - 1>>, 0, ""), 0, <<>>), Op(T(<<1>>, 12), x - 1, <<Whole(Resp(Pt(10, x)))>>), Op(T(<<2>>, 12), x - 1, <<Whole(Resp(Pt(10, x)))>>)>>)]
Cases == CASE IOEnv.VERIF_PROP = "C16" -> Control \o Pairs \o EndAfter \o TransactFaults \o SizeLens \o Varied
           [] IOEnv.VERIF_PROP = "C15" -> Frames \o Fits \o Splits \o TFaults \o Words \o Locs \o Long \o Mixed \o Sweeps
ASSUME LET c == TLCEval(Cases) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================
