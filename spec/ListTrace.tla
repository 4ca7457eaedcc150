----------------------------- MODULE ListTrace -----------------------------
(* Replays each logged history on ListModel.  Elements are logged as the number
   of the pool element with the same encoding (0: the default element of the
   type, -1: none).                                                            *)
EXTENDS Lists, ListModel, TraceBase
PoolFun == [n \in ToSet(ListTypes) |-> Pool(n, CapOf(n) + 12)]
Pools == TLCEval(PoolFun)
Enc0(n, s) == BE(Len(s), 4) \o Cat([x \in 1..Len(s) |-> IF s[x] = 0 THEN Line.def ELSE Pools[n][s[x]]])
Start == LET s == Line.init IN
  CASE Line.kind = "new" -> New(CapOf(Line.t), s)
    [] OTHER -> [r |-> "ok", s |-> s, ok |-> TRUE]
Rc(r) == IF r = "size" THEN "rc149" ELSE r      \* TPM_RC_SIZE = 0x095
StepRes(s, st) ==
  CASE st.op = "add" -> Add(CapOf(Line.t), s, st.x)
    [] st.op = "rt" -> RoundTrip(s)
\* the logged step against the model: result, count, elements, encoding
StepOk(n, st) ==
  /\ st.r = Rc(n.r)
  /\ st.count = Len(n.s)
  /\ st.ids = n.s
  /\ st.op = "rt" => st.enc = Enc0(Line.t, n.s)
HistOk ==
  LET s0 == Start IN
  /\ Line.r = Rc(s0.r)
  /\ s0.ok => /\ Line.count = Len(s0.s) /\ Line.ids = s0.s
              /\ FoldLeft(LAMBDA a, st : IF ~a.ok THEN a ELSE LET n == StepRes(a.s, st) IN [ok |-> StepOk(n, st), s |-> n.s],
                          [ok |-> TRUE, s |-> s0.s], Line.steps).ok
              /\ Len(Line.steps) = Line.len
  /\ ~s0.ok => Line.steps = <<>>
Inv == Judge(HistOk, "list history")
=============================================================================
