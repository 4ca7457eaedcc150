-------------------------------- MODULE Tcp --------------------------------
(* The client side of the TPM simulator's TCP protocol.  An operation is a
   program of exchanges, each on one of the two ports: bytes to send and the
   shape of the answer.  Op: [f, a (argument bytes), cap, name].               *)
EXTENDS Wire

Zero4 == <<0, 0, 0, 0>>
Signals == [PowerOn |-> 1, PowerOff |-> 2, PhysicalPresenceOn |-> 3, PhysicalPresenceOff |-> 4, CancelOn |-> 9, CancelOff |-> 10,
            NvOn |-> 11, NvOff |-> 12, KeyCacheOn |-> 13, KeyCacheOff |-> 14, Reset |-> 17, Restart |-> 18]
X(port, send, recv) == [port |-> port, send |-> send, recv |-> recv]
Code(c) == BE(c, 4)
Sig(n) == X("plat", Code(Signals[n]), "ack")
\* loc: the locality in force
Prog(op, loc) ==
  CASE op.f = "transact" -> <<X("tpm", Code(8) \o <<loc>> \o BE(Len(op.a), 4) \o op.a, "resp")>>
    [] op.f = "locality" -> <<>>
    [] op.f = "hcrtm" -> <<X("tpm", Code(5), "ack"), X("tpm", Code(6) \o BE(Len(op.a), 4) \o op.a, "ack"), X("tpm", Code(7), "ack")>>
    [] op.f = "handshake" -> <<X("tpm", Code(15) \o op.a, "eight")>>
    [] op.f = "alt" -> <<X("tpm", Code(16) \o op.a, "ack")>>
    [] op.f = "signal" -> <<Sig(op.name)>>
    [] op.f = "reinit" -> <<Sig("NvOff"), Sig("PowerOff"), Sig("PowerOn"), Sig("NvOn")>>
    [] op.f = "failure" -> <<X("plat", Code(30), "ack")>>
    [] op.f = "sizes" -> <<X("plat", Code(25), "sizes")>>
    [] op.f = "act" -> <<X("plat", Code(26) \o op.a, "four")>>
    [] op.f = "hash" -> <<X("plat", Code(35) \o op.a, "ack")>>
    [] op.f = "svn" -> <<X("plat", Code(36) \o op.a, "ack")>>
    [] op.f = "end" -> <<X("tpm", Code(20), "none"), X("plat", Code(20), "none")>>
    [] op.f = "stop" -> <<X("tpm", Code(21), "none"), X("plat", Code(21), "none")>>

(* Reading an answer from the incoming stream s (everything the peer sends on
   the port from here on, then end of stream).  Result: the acceptable result
   kinds ("ok" or error kinds), the data, the rest of the stream.              *)
R(k, d, s) == [k |-> k, d |-> d, s |-> s]
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Eof(s) == R({"UnexpectedEof"}, <<>>, <<>>)
End(s, d) == IF Len(s) < 4 THEN Eof(s)
             ELSE IF SubSeq(s, 1, 4) # Zero4 THEN R({"InvalidData"}, <<>>, Drop(s, 4))
             ELSE R({"ok"}, d, Drop(s, 4))
Take(n, s) == IF Len(s) < n THEN Eof(s) ELSE End(Drop(s, n), SubSeq(s, 1, n))
Rev(b) == [x \in 1..Len(b) |-> b[Len(b) + 1 - x]]
\* two of the four numbers travel in little-endian order
Unsize(r) == IF r.k = {"ok"} THEN [r EXCEPT !.d = Rev(SubSeq(@, 1, 4)) \o SubSeq(@, 5, 8) \o Rev(SubSeq(@, 9, 12)) \o SubSeq(@, 13, 16)] ELSE r
Answer(recv, cap, s) ==
  CASE recv = "none" -> R({"ok"}, <<>>, s)
    [] recv = "ack" -> End(s, <<>>)
    [] recv = "four" -> Take(4, s)
    [] recv = "eight" -> Take(8, s)
    [] recv = "sizes" -> IF Len(s) < 4 THEN Eof(s)
                         ELSE IF SubSeq(s, 1, 4) # BE(16, 4) THEN R({"InvalidData"}, <<>>, <<>>)
                         ELSE Unsize(Take(16, Drop(s, 4)))
    [] recv = "resp" -> IF Len(s) < 4 THEN Eof(s)
                        ELSE LET n == Num(s, 0, 4) IN
                             IF n <= cap THEN Take(n, Drop(s, 4))
                             ELSE IF n = BIG \/ Len(s) < 8 + n THEN R({"InvalidInput", "UnexpectedEof"}, <<>>, <<>>)
                             ELSE LET e == Take(n, Drop(s, 4)) IN
                                  R(IF e.k = {"ok"} THEN {"InvalidInput"} ELSE {"InvalidInput", "InvalidData"}, <<>>, e.s)
AnyErr == {"UnexpectedEof", "ConnectionReset", "BrokenPipe", "ConnectionAborted", "NotConnected", "WriteZero"}
=============================================================================
