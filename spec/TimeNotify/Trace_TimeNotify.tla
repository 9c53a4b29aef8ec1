-------------------------- MODULE Trace_TimeNotify --------------------------
EXTENDS TimeNotify, TraceBase
VARIABLES S, l
Init == S = Start /\ l = 1
Ev == Tr[l]
Sys ==
  /\ Ev.e = "sys"
  /\ CASE Ev.c = "create" -> /\ ~S.fd /\ Ev.realtime
                             /\ S' = IF Ev.ok THEN SysCreate(S) ELSE [S EXCEPT !.broken = TRUE]
       \* The far future, and canceled when the time changes
       [] Ev.c = "arm" -> /\ S.fd /\ Ev.abs /\ Ev.cancel /\ Ev.far /\ (Ev.ok \/ Ev.fault)
                          /\ S' = IF Ev.ok THEN SysArm(S) ELSE [S EXCEPT !.broken = TRUE]
       [] Ev.c = "close" -> S.fd /\ S.refs = 0 /\ S' = SysClose(S)
       [] Ev.c = "read" -> S.fd /\ S.pend /\ S.pump /\ S' = SysRead(S)
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "new" -> Ev.r /\ (S.refs > 0 => Ev.same) /\ S' = New(S)
       [] Ev.op = "ref" -> S.refs > 0 /\ Ev.r /\ S' = Ref(S)
       [] Ev.op = "unref" -> S.refs > 0 /\ S' = Unref(S)
       [] Ev.op = "addh" -> S.refs > 0 /\ Ev.r /\ S' = AddH(S, Ev.h)
       [] Ev.op = "rmh" -> S.refs > 0 /\ S' = RmH(S, Ev.h)
       [] Ev.op = "change" -> S' = Change(S)
       [] Ev.op = "hup" -> S.fd /\ S' = SysHup(S)
       [] Ev.op = "null" -> Ev.r /\ S' = S
Step ==
  \/ Ev.e = "scn" /\ S' = Start
  \/ Sys
  \/ Op
  \/ Ev.e = "pump" /\ ~S.pump /\ S' = [S EXCEPT !.pump = TRUE]
  \/ Ev.e = "call" /\ S.pump /\ S.cur.at = 0 /\ \E X \in Next1(S, Ev.h) : Ev.self /\ S' = Enter(X, Ev.h)
  \/ Ev.e = "ret" /\ S.cur.at # 0 /\ S' = Leave(S)
  \/ Ev.e = "pumped" /\ S.pump /\ Finished(S) /\ S' = [S EXCEPT !.pump = FALSE, !.cur = Idle, !.red = FALSE]
  \/ Ev.e = "done" /\ ~S.pump /\ Quiet(S) /\ UNCHANGED S
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ Ev.sources = 0 /\ S.refs = 0 /\ ~S.fd /\ UNCHANGED S
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
