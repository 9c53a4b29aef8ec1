--------------------------- MODULE Trace_History ---------------------------
EXTENDS History, TraceBase
VARIABLES refs, l
Init == HInit(0, Zero, Zero) /\ refs = 0 /\ l = 1
Ev == Tr[l]
Pos(b) == Lt(Zero, b)
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "new" ->
            LET n == S64(Ev.n) i == S64(Ev.i) IN
            /\ refs = 0 /\ Ev.r = (Pos(n) /\ Pos(i))
            /\ refs' = IF Ev.r THEN 1 ELSE 0
            /\ ents' = <<>> /\ size' = (IF Ev.r THEN Ev.ni ELSE 0) /\ span' = i /\ UNCHANGED now
       [] Ev.op = "time" -> SetTime(S64(Ev.t)) /\ UNCHANGED refs
       [] Ev.op = "add" -> AddSample(S64(Ev.v)) /\ IsMedian(S64(Ev.r), ents') /\ UNCHANGED refs
       [] Ev.op = "clear" -> Clear /\ UNCHANGED refs
       [] Ev.op = "size" -> Look /\ SizeIs(Ev.r) /\ UNCHANGED refs
       [] Ev.op = "interval" -> Look /\ IntervalIs(S64(Ev.r)) /\ UNCHANGED refs
       [] Ev.op = "median" -> Look /\ MedianIs(S64(Ev.r), S64(Ev.d)) /\ UNCHANGED refs
       [] Ev.op = "ref" -> refs' = refs + 1 /\ Ev.r /\ UNCHANGED hvars
       [] Ev.op = "unref" -> refs' = refs - 1 /\ (IF refs = 1 THEN ents' = <<>> /\ UNCHANGED <<size, span, now>> ELSE UNCHANGED hvars)
       [] Ev.op = "null" -> Ev.r /\ UNCHANGED <<hvars, refs>>
Step ==
  \/ Ev.e = "scn" /\ ents' = <<>> /\ size' = 0 /\ span' = Zero /\ now' = Zero /\ refs' = 0
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ refs = 0 /\ UNCHANGED <<hvars, refs>>
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
