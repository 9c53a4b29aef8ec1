--------------------------- MODULE Trace_Asserts ---------------------------
EXTENDS Asserts, TraceBase
VARIABLE l
TInit == Init /\ l = 1
TNext == l <= Len(Tr) /\ Step(Tr[l].e) /\ l' = l + 1
Progress == Reached(l)
=============================================================================
