-------------------------- MODULE Trace_RefCount --------------------------
EXTENDS RefCount, TraceBase
VARIABLES S, l
Init == S = Begin(0, FALSE) /\ l = 1
Ev == Tr[l]
Sum(s) == s[1] + s[2] + s[3]
Step ==
  \/ Ev.e = "scn" /\ UNCHANGED S
  \/ Ev.e = "exec" /\ S' = Begin(Sum(Ev.own), Ev.pay)
  \/ Ev.e = "inv" /\ S.pend[Ev.th] = Idle /\ S.cnt > 0 /\ S' = Inv(S, Ev.th, Ev.op)
  \/ Ev.e = "many" /\ S.pend[Ev.th] = Idle /\ S.cnt > 0 /\ S.cnt + Ev.n > 0 /\ S' = Many(S, Ev.n)
  \/ Ev.e = "drop" /\ Ev.ok /\ Ev.th \in Th /\ ~S.dropped /\ CanGo(S, Ev.th) /\ S' = Drop(S)
  \/ Ev.e = "free" /\ Ev.th \in Th /\ ~S.freed /\ CanGo(S, Ev.th) /\ S' = Free(S)
  \/ Ev.e = "res" /\ Ev.ok /\ CanRes(S, Ev.th) /\ S' = Res(S, Ev.th)
  \/ Ev.e = "done" /\ Ev.more = 0 /\ Running(S) = {} /\ Gone(S) /\ UNCHANGED S
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ UNCHANGED S
Silent == Ev.e \notin {"scn", "exec", "end"} /\ \E t \in Th : CanLin(S, t) /\ S' = Lin(S, t)
Next == \/ l <= Len(Tr) /\ Step /\ l' = l + 1
        \/ l <= Len(Tr) /\ Silent /\ l' = l
Progress == Reached(l)
=============================================================================
