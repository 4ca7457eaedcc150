------------------------------ MODULE Client ------------------------------
(* The command pipeline of the client: the frame it must send, and how the
   bytes a connection delivers are to be interpreted.  Session areas and
   parameters are grammar terms of Wire.                                     *)
EXTENDS TpmTypes

CmdCap == 4096
CatAll(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
NoSess == <<128, 1>>
WithSess == <<128, 2>>
AuthArea(auths) == IF auths = <<>> THEN <<>> ELSE LET a == CatAll(auths) IN BE(Len(a), 4) \o a
\* cc: 4 bytes, h: handle bytes, auths: sequence of encoded authorizations, p: parameter bytes
Frame(cc, h, auths, p) ==
  LET body == h \o AuthArea(auths) \o p IN
  (IF auths = <<>> THEN NoSess ELSE WithSess) \o BE(10 + Len(body), 4) \o cc \o body

\* --- responses -------------------------------------------------------------
RespTag(b) == SubSeq(b, 1, 2)
RespRc(b) == SubSeq(b, 7, 10)
Zero4 == <<0, 0, 0, 0>>
HasHeader(b) == Len(b) >= 10
SizeOk(b) == SubSeq(b, 3, 6) = BE(Len(b), 4)

(* Where the parts of a successful response lie: [ok, h, p (byte strings),
   ps (parameter size consistent), at (where the session area starts)]       *)
Parts(b, rhT, rpT) ==
  LET n == Len(b)
      h == Dec(rhT, b, 10, n, "")
      withPs == RespTag(b) = WithSess
      bad == [ok |-> FALSE, h |-> <<>>, p |-> <<>>, ps |-> FALSE, at |-> 0]
  IN IF ~IsOk(h) THEN bad
     ELSE IF withPs /\ h.i + 4 > n THEN bad
     ELSE LET i == IF withPs THEN h.i + 4 ELSE h.i
              p == Dec(rpT, b, i, n, "") IN
          IF ~IsOk(p) THEN bad
          ELSE [ok |-> TRUE, h |-> SubSeq(b, 11, h.i), p |-> SubSeq(b, i + 1, p.i),
                ps |-> ~withPs \/ SubSeq(b, h.i + 1, h.i + 4) = BE(p.i - i, 4), at |-> p.i]
\* the authorization responses after position at: as many of n as decode, and where they end
Auths(b, at, n) ==
  FoldLeft(LAMBDA acc, x : IF ~acc.ok THEN acc
             ELSE LET r == Dec(AuthResp, b, acc.i, Len(b), "") IN
                  IF IsOk(r) THEN [ok |-> TRUE, i |-> r.i, a |-> Append(acc.a, SubSeq(b, acc.i + 1, r.i))]
                  ELSE [acc EXCEPT !.ok = FALSE],
           [ok |-> TRUE, i |-> at, a |-> <<>>], [x \in 1..n |-> x])

\* what a password session accepts, from the encoded authorization response
PasswordOk(a) == a = <<0, 0, 1, 0, 0>>
PasswordAuth(secret) == <<64, 0, 0, 9>> \o <<0, 0>> \o <<0>> \o BE(Len(secret), 2) \o secret
SecretCap == 64

(* Interpretation of delivered bytes b for n sessions, where verdict(i, a) says
   whether session i accepts the encoded authorization a:
   k = "rc"  : exactly this response code is reported
   k = "ok"  : success with exactly these handles and parameters
   k = "err" : some error
   strict: FALSE where the tag is not one a consistent response to this
   command has; then an error is acceptable instead of the success.           *)
Interp(b, rhT, rpT, n, Verdict(_,_)) ==
  LET err == [k |-> "err", h |-> <<>>, p |-> <<>>, auths |-> <<>>, strict |-> TRUE] IN
  IF ~HasHeader(b) THEN err
  ELSE IF RespRc(b) # Zero4 THEN [err EXCEPT !.k = "rc"]
  ELSE IF ~SizeOk(b) THEN err
  ELSE LET q == Parts(b, rhT, rpT) IN
       IF ~q.ok THEN err
       ELSE LET s == Auths(b, q.at, n) IN
            IF s.ok /\ q.ps /\ s.i = Len(b) /\ \A i \in 1..n : Verdict(i, s.a[i])
            THEN [k |-> "ok", h |-> q.h, p |-> q.p, auths |-> s.a,
                  strict |-> RespTag(b) = (IF n = 0 THEN NoSess ELSE WithSess)]
            ELSE [err EXCEPT !.auths = s.a]
=============================================================================
