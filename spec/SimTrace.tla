------------------------------ MODULE SimTrace ------------------------------
EXTENDS Sim, TraceBase
Inv == Judge(ScenarioOk(Line), "simulator")
=============================================================================
