-------------------------------- MODULE Loop --------------------------------
(* Client and server of this repository back to back: the client's frame is the
   server's request, the server's answer is what the connection delivers.       *)
EXTENDS Client, Server

\* "Flip<i>": a command whose code differs from GetRandom's in bit i only
Flips == [i \in 0..31 |-> "Flip" \o ToString(i)]
FlipCode(i) == LET by == 4 - (i \div 8) bt == 2^(i % 8) IN
  [GetRandom EXCEPT ![by] = IF (@ \div bt) % 2 = 1 THEN @ - bt ELSE @ + bt]
CcOf(c) == CASE \E i \in 0..31 : c = Flips[i] -> FlipCode(CHOOSE i \in 0..31 : c = Flips[i])
             [] c = "DynB" -> <<32, 0, 161, 195>> [] c = "GetRandomCmd" -> GetRandom [] c = "StartupCmd" -> <<0, 0, 1, 68>>
             [] c = "PcrReadCmd" -> <<0, 0, 1, 126>> [] c = "GetCapabilityCmd" -> <<0, 0, 1, 122>>
RpOf(c) == CASE c = "GetRandomCmd" -> Digest [] OTHER -> Raw(0)
Auth(ss) == [i \in 1..Len(ss) |-> PasswordAuth(ss[i])]
Sent(c, ss, p) == Frame(CcOf(c), <<>>, Auth(ss), p)
Reads(c, b, n) == LET Vd(i, a) == PasswordOk(a) IN Interp(b, Raw(0), RpOf(c), n, Vd)

(* The server as it ought to be: it skips the authorization area, puts random
   bytes in a TPM2B, and answers a command with sessions with sessions.
   Prefix / Sessions FALSE: without that.                                       *)
PwAnswer == <<0, 0, 1, 0, 0>>
SrvParamAt(req, sessions) == IF sessions /\ SubSeq(req, 1, 2) = WithSess THEN HDR + 4 + Num(req, HDR, 4) ELSE HDR
SrvAnswer(req, m, fails, rnd(_), prefix, sessions, nsess) ==
  LET at == SrvParamAt(req, sessions) IN
  IF SubSeq(req, 7, 10) # GetRandom THEN ErrResp(CommandCode)
  ELSE LET c == Num(req, at, 2)
           body == (IF prefix THEN BE(c, 2) ELSE <<>>) \o rnd(c)
           full == IF sessions /\ nsess > 0 THEN BE(Len(body), 4) \o body \o CatAll([i \in 1..nsess |-> PwAnswer]) ELSE body
       IN IF HDR + Len(full) > m THEN ErrResp(Memory)
          ELSE IF fails THEN ErrResp(Failure)
          ELSE (IF sessions /\ nsess > 0 THEN WithSess ELSE NoSess) \o BE(HDR + Len(full), 4) \o BE(0, 4) \o full
=============================================================================
