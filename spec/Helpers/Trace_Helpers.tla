--------------------------- MODULE Trace_Helpers ---------------------------
EXTENDS Helpers, TraceBase
VARIABLES S, l
Init == S = Start /\ l = 1
Ev == Tr[l]
Obs(X) == Ev.slot = X.slot /\ Ev.var = X.var /\ Ev.refs = X.refs
Bool(b) == IF b THEN 1 ELSE 0
Op ==
  /\ Ev.e = "op" /\ Free(S)
  /\ CASE Ev.op = "conn" -> S' = Connect(S, Ev.x)
       [] Ev.op \in {"add", "stay"} -> S' = AddSource(S, Ev.x, Ev.op = "stay")
       \* without an argument there's nothing to do
       [] Ev.op = "none" -> Ev.ret = 0 /\ S' = S
       [] Ev.op = "oref" -> Ev.ret = 1 /\ S' = [S EXCEPT !.refs = @ + 1]
       [] Ev.op = "ounref" -> S' = [S EXCEPT !.refs = @ - 1]
       [] Ev.op = "ptrv" -> Ev.ret = PtrvLen([none |-> Ev.x < 0, n |-> Ev.x]) /\ Ev.empty = (Ev.x <= 0) /\ S' = S
       [] Ev.op = "memdup" -> /\ [none |-> Ev.rnone, b |-> Ev.r] = MemDup(Ev.none, Ev.b)
                              /\ Ev.own = ~Ev.rnone /\ S' = S
       [] Ev.op = "strlen" -> Ev.ret = (IF Ev.x < 0 THEN 0 ELSE Ev.x) /\ S' = S
       [] Ev.op = "version" -> Ev.ret = Ev.x * 16777216 + Ev.y * 4096 + Ev.z /\ S' = S
  /\ Obs(S')
Step ==
  \/ Ev.e = "scn" /\ S' = Start
  \/ Op
  \/ Ev.e = "call" /\ Free(S) /\ S' = (IF Ev.op = "disc" THEN CallDisc(S, IF Ev.x > NS THEN NS ELSE Ev.x) ELSE CallRemove(S, Ev.x))
  \/ Ev.e = "ret" /\ CanRet(S) /\ S' = Ret(S) /\ Ev.ret = Top(S).ret /\ Obs(S')
  \* each of those which were removed, once
  \/ Ev.e = "gone" /\ CanGone(S) /\ Ev.x \in Leaving(S) /\ S' = Gone(S, Ev.x) /\ Obs(S')
  \/ Ev.e = "gret" /\ In(S, {"gone"}) /\ S' = GoneRet(S)
  \/ Ev.e = "emit" /\ S.st = <<>> /\ S' = Emit(S)
  \/ Ev.e = "iter" /\ S.st = <<>> /\ S' = Iter(S)
  \* exactly those which are still there, in their order, once
  \/ Ev.e = "fire" /\ CanFire(S) /\ S' = Fire(S) /\ Ev.x = Top(S').now /\ Obs(S')
  \/ Ev.e = "fret" /\ CanFireRet(S) /\ S' = FireRet(S)
  \/ Ev.e = "over" /\ CanOver(S) /\ S' = Over(S) /\ Obs(S')
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ S.st = <<>> /\ UNCHANGED S
Next == l <= Len(Tr)
  /\ \/ Step /\ l' = l + 1
     \/ CanDefer(S) /\ S' = Defer(S) /\ l' = l
Progress == Reached(l)
=============================================================================
