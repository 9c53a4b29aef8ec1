------------------------- MODULE Trace_LongHistory -------------------------
EXTENDS LongHistory, TraceBase
VARIABLE l
Init == LInit(0, 0) /\ l = 1
Ev == Tr[l]
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "lnew" -> /\ runs' = <<>> /\ size' = Ev.n /\ span' = Ev.i /\ now' = 0
       [] Ev.op = "gap" -> Gap(Ev.n)
       [] Ev.op = "fill" -> Fill(Ev.n) /\ Ev.r = Middle(runs')
       [] Ev.op = "clear" -> Forget
       [] Ev.op = "llook" -> /\ Look
                             /\ Ev.size = Total(runs')
                             /\ Ev.interval = (IF runs' = <<>> THEN 0 ELSE now - runs'[1].from)
                             /\ Ev.median = (IF runs' = <<>> THEN Ev.d ELSE Middle(runs'))
Step ==
  \/ Ev.e = "scn" /\ runs' = <<>> /\ size' = 0 /\ span' = 0 /\ now' = 0
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ UNCHANGED lvars
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
