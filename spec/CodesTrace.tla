----------------------------- MODULE CodesTrace -----------------------------
EXTENDS Codes, TraceBase
W(v) == <<v \div 65536, v % 65536>>
Low(w) == w[1] = 0 /\ w[2] < 4096
Facts(e, v) == e.p = FALSE /\ e.v = W(v) /\ e.warn = Warning(v) /\ e.item = Item(v) /\ e.tss = W(v)
Ok(e) ==
  CASE e.op = "named" -> Facts(e, Named[e.name])
    [] e.op = "qual"  -> e.p = FALSE /\ (e.pos <= MaxNo(e.on) => Facts(e, Qual(Named[e.name], e.on, e.pos)))
    [] e.op = "layer" -> e.tss = W(LayerCode(e.layer, e.name))
    [] e.op = "try"   -> e.p = FALSE /\ e.ok = (e.in # <<0, 0>>) /\ (e.ok => e.v = e.in /\ e.io = e.in /\ e.txt = e.in)
    [] e.op = "range" -> \/ e.lo = <<0, 0>> /\ e.hi = <<0, 0>> /\ e.k = 0                         \* 0 is no error
                         \/ e.lo = <<0, 1>> /\ e.hi = <<65535, 65535>> /\ e.k = 1 /\ e.d = <<0, 0>> \* every other value is kept
Inv == Judge(Ok(Line), Line.op)
\* nothing is missing from the log
Done == /\ {Trace[i].name : i \in {j \in 1..N : Trace[j].op = "named"}} = DOMAIN Named
        /\ Cardinality({<<Trace[i].name, Trace[i].on, Trace[i].pos>> : i \in {j \in 1..N : Trace[j].op = "qual"}}) = 4 * 3 * 15
        /\ Cardinality({<<Trace[i].layer, Trace[i].name>> : i \in {j \in 1..N : Trace[j].op = "layer"}}) = 3 * Cardinality(DOMAIN LayerNo)
        /\ \E i \in 1..N : Trace[i].op = "range"
ASSUME Done
=============================================================================
