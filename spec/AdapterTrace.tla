---------------------------- MODULE AdapterTrace ----------------------------
EXTENDS Adapter, TraceBase
Inv == Judge(\A i \in 1..Len(Line.ops) : OpOk(Line.kind, Line.ops[i]), "adapter")
=============================================================================
