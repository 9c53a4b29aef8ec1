---------------------------- MODULE MC_Helpers ----------------------------
(* Histories of handlers and sources *)
EXTENDS Helpers, TLC, Json
CONSTANTS MaxConn, MaxNext, MaxDepth, Signals, Sources
VARIABLES S, op
Init == S = Start /\ op = <<>>
Do(X, o) == S' = X /\ op' = o
Deep == Len(S.st) >= MaxDepth
Next ==
  \/ Signals /\ Free(S) /\ \E i \in 0..NS : Len(S.conn) < MaxConn /\ S.next < MaxNext
       /\ (IF i = 0 THEN TRUE ELSE S.slot[i] = 0) /\ Do(Connect(S, i), <<"conn", i>>)
  \/ Signals /\ Free(S) /\ ~Deep /\ \E n \in 0..NS : Do(CallDisc(S, n), <<"disc", n>>)
  \/ Sources /\ Free(S) /\ \E v \in 1..NV, b \in BOOLEAN : S.var[v] = 0 /\ S.next < MaxNext
       /\ Do(AddSource(S, v, b), <<IF b THEN "stay" ELSE "add", v>>)
  \/ Sources /\ Free(S) /\ ~Deep /\ \E v \in 1..NV, o \in {"remove", "clear"} : Do(CallRemove(S, v), <<o, v>>)
  \/ S.st = <<>> /\ S.conn # <<>> /\ Do(Emit(S), <<"emit">>)
  \/ S.st = <<>> /\ S.src # <<>> /\ Do(Iter(S), <<"iter">>)
  \/ CanGone(S) /\ \E x \in Leaving(S) : Do(Gone(S, x), <<>>)
  \/ In(S, {"gone"}) /\ Do(GoneRet(S), <<"ret">>)
  \/ CanRet(S) /\ Do(Ret(S), <<>>)
  \/ CanFire(S) /\ Leaving(S) = {} /\ Do(Fire(S), <<>>)
  \/ CanFireRet(S) /\ Do(FireRet(S), <<"ret">>)
  \/ CanOver(S) /\ Do(Over(S), <<>>)
Edge == PrintT(ToJson([s |-> ToString(S), op |-> op', t |-> ToString(S')]))
View == S
Inv == Ok(S)
=============================================================================
