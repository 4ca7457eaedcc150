------------------------------ MODULE Server ------------------------------
(* The TPM server: how a request is answered, and the rules for using the
   random generator and the entropy source.                                   *)
EXTENDS Wire

HDR == 10
Rc(x) == BE(x, 4)
CommandSize == 322   CommandCode == 323   Memory == 2308   Failure == 257   \* 0x142 0x143 0x904 0x101
GetRandom == <<0, 0, 1, 123>>
\* what the request asks for, given a response buffer of m >= 10 bytes
Err(rc) == [k |-> "err", rc |-> rc, n |-> 0]
Classify(req, m) ==
  LET n == Len(req) IN
  IF n < HDR THEN Err(CommandSize)
  ELSE IF SubSeq(req, 3, 6) # BE(n, 4) THEN Err(CommandSize)
  ELSE IF SubSeq(req, 7, 10) # GetRandom THEN Err(CommandCode)
  ELSE IF n < HDR + 2 THEN Err(CommandSize)
  ELSE LET c == Num(req, HDR, 2) IN
       IF HDR + c > m THEN Err(Memory) ELSE [k |-> "rand", rc |-> 0, n |-> c]
\* the answer to a request does not depend on anything this property leaves open
Plain(req) == \/ Len(req) < HDR
              \/ SubSeq(req, 3, 6) # BE(Len(req), 4)
              \/ SubSeq(req, 1, 2) = <<128, 1>> /\ (SubSeq(req, 7, 10) = GetRandom => Len(req) <= HDR + 2)
ErrResp(rc) == <<128, 1>> \o BE(HDR, 4) \o BE(rc, 4)
OkResp(payload) == <<128, 1>> \o BE(HDR + Len(payload), 4) \o BE(0, 4) \o payload
IsErrResp(b) == Len(b) = HDR /\ SubSeq(b, 1, 6) = SubSeq(ErrResp(0), 1, 6) /\ SubSeq(b, 7, 10) # BE(0, 4)

(* --- generator discipline -------------------------------------------------
   State: the lengths of entropy input and nonce, the bytes drawn and not used
   yet, instantiated.
   Events, in order:  ent (a draw), inst, reseed, fill/next (output).
   need is the generator's own truth at the time of the call.                *)
EntLen == 32
NonceLen == 16
GNew(el, nl) == [ok |-> TRUE, el |-> el, nl |-> nl, unused |-> <<>>, live |-> FALSE, why |-> ""]
G0 == GNew(EntLen, NonceLen)
Bad(g, w) == [g EXCEPT !.ok = FALSE, !.why = w]
\* x is a contiguous part of s; the rest of s without it (at the end if it is there)
IsAt(s, x, j) == SubSeq(s, j, j + Len(x) - 1) = x
AtEnd(s, x) == Len(s) >= Len(x) /\ IsAt(s, x, Len(s) - Len(x) + 1)
Has(s, x) == AtEnd(s, x) \/ \E j \in 1..(Len(s) - Len(x) + 1) : IsAt(s, x, j)
Without(s, x) == IF AtEnd(s, x) THEN SubSeq(s, 1, Len(s) - Len(x))
                 ELSE LET j == CHOOSE j \in 1..(Len(s) - Len(x) + 1) : IsAt(s, x, j) IN SubSeq(s, 1, j - 1) \o SubSeq(s, j + Len(x), Len(s))
GenStep(g, e) ==
  IF ~g.ok THEN g
  ELSE CASE e.e = "source" -> g
         [] e.e = "ent" -> [g EXCEPT !.unused = @ \o e.b]
         [] e.e = "inst" ->
              IF g.live THEN Bad(g, "instantiated twice")
              ELSE IF ~(Len(e.b) = g.el /\ Has(g.unused, e.b)) THEN Bad(g, "entropy input is not a complete fresh draw")
              ELSE IF ~(Len(e.nonce) = g.nl /\ Has(Without(g.unused, e.b), e.nonce)) THEN Bad(g, "nonce is not a complete fresh draw")
              ELSE [g EXCEPT !.unused = Without(Without(@, e.b), e.nonce), !.live = e.ok]
         [] e.e = "reseed" ->
              IF ~g.live THEN Bad(g, "reseed before instantiate")
              ELSE IF ~(Len(e.b) = g.el /\ Has(g.unused, e.b)) THEN Bad(g, "reseed entropy is not a complete fresh draw")
              ELSE [g EXCEPT !.unused = Without(@, e.b)]
         [] e.e = "need" -> g
         [] e.e \in {"fill", "next"} ->
              IF ~g.live THEN Bad(g, "output before instantiate")
              ELSE IF e.need THEN Bad(g, "output although reseeding is required")
              ELSE g
Run(g, es) == FoldLeft(GenStep, g, es)
Outputs(es) == FoldLeft(LAMBDA a, e : IF e.e \in {"fill", "next"} /\ e.ok THEN a \o e.b ELSE a, <<>>, es)
Failed(es) == \E i \in 1..Len(es) : es[i].e \in {"reseed", "fill", "next"} /\ ~es[i].ok

\* the answer to a request whose execution produced the generator events es
Answer(req, m, es) ==
  LET c == Classify(req, m) IN
  IF c.k = "err" THEN ErrResp(c.rc)
  ELSE IF Failed(es) THEN ErrResp(Failure)
  ELSE OkResp(Outputs(es))
=============================================================================
