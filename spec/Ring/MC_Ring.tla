------------------------------ MODULE MC_Ring ------------------------------
(* Bounded exploration of Ring with re-entrant clients; elements are used    *)
(* once only, so that ownership can be followed.                             *)
EXTENDS Ring, TLC, Json
CONSTANTS N, MaxDepth, Maxs, WithFree
MaxsQuick == {-1, 1, 2}
MaxsThorough == {-1, 0, 1, 2, 3}
VARIABLES op, used
vars == <<st, items, max, ff, refs, stack, gone, taken, used>>
fresh == used + 1
Init == RingInit /\ op = <<>> /\ used = 0
Keep == UNCHANGED used
Deep == Len(stack) < MaxDepth
Next ==
  \/ \E m \in Maxs, f \in WithFree : New(m, f) /\ used = 0 /\ op' = <<"new", 0, m, IF f THEN 1 ELSE 0>> /\ Keep
  \/ used < N /\ Put(fresh) /\ op' = <<"put", fresh>> /\ used' = fresh
  \/ used < N /\ PutFront(fresh) /\ op' = <<"putf", fresh>> /\ used' = fresh
  \/ Get /\ op' = <<"get">> /\ Keep
  \/ GetLast /\ op' = <<"getl">> /\ Keep
  \/ \E n \in {1, 2, N} : Deep /\ Drop(n) /\ op' = <<"drop", n>> /\ Keep
  \/ \E n \in {1, 2, N} : Deep /\ DropLast(n) /\ op' = <<"dropl", n>> /\ Keep
  \/ Deep /\ Clear /\ op' = <<"clear">> /\ Keep
  \/ \E m \in Maxs : m # max /\ Deep /\ SetMax(m) /\ op' = <<"setmax", m>> /\ Keep
  \/ Deep /\ Unref /\ op' = <<"unref">> /\ Keep
  \/ refs < 2 /\ Ref /\ op' = <<"ref">> /\ Keep
  \/ Same /\ op' = <<"flat">> /\ Keep
  \/ Same /\ op' = <<"compact">> /\ Keep
  \/ CbEnter /\ op' = <<>> /\ Keep
  \/ CbReturn /\ op' = <<"cbret">> /\ Keep
  \/ Return /\ op' = <<>> /\ Keep
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
=============================================================================
