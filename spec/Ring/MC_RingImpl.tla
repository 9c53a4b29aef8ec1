---------------------------- MODULE MC_RingImpl ----------------------------
EXTENDS RingImpl, TLC, Json
VARIABLE op
MaxsQuick == {-1, 2, 3}
MaxsThorough == {-1, 0, 2, 3, 5}
View == <<st, alloc, max, start, end>>
Small == alloc <= MaxAlloc
\* the element put next; which one does not matter
X == (Size % 3) + 1
Next ==
  \/ \E r \in Reserved, m \in Maxs : New(r, m) /\ op' = <<"new", r, m, 0>>
  \/ st = "live" /\
     \/ PutX(X, FALSE) /\ op' = <<"put", X>>
     \/ PutX(X, TRUE) /\ op' = <<"putf", X>>
     \/ DropFront(1) /\ Rest /\ op' = <<"get">>
     \/ DropBack(1) /\ Rest /\ op' = <<"getl">>
     \/ \E n \in {1, 2, Size, Size + 1} : n > 0 /\ DropFront(n) /\ Rest /\ op' = <<"drop", n>>
     \/ \E n \in {1, 2, Size, Size + 1} : n > 0 /\ DropBack(n) /\ Rest /\ op' = <<"dropl", n>>
     \/ DropFront(Size) /\ Rest /\ op' = <<"clear">>
     \/ Compact /\ op' = <<"compact">>
     \/ Flatten /\ op' = <<"flat">>
     \/ \E m \in Maxs : m # max /\ SetMax(m) /\ op' = <<"setmax", m>>
     \/ \E n \in {Size + 1, alloc + 1} : Reserve(n) /\ UNCHANGED <<st, max>> /\ op' = <<"reserve", n>>
     \/ UNCHANGED implvars /\ op' = <<"canput", 1>>
MCInit == Init /\ op = <<>>
Edge == PrintT(ToJson([s |-> ToString(View), op |-> op', t |-> ToString(View')]))

\* Refinement: the contents behave as Ring's items
Abs == INSTANCE Ring WITH items <- Contents, ff <- FALSE, refs <- IF st = "live" THEN 1 ELSE 0,
                          stack <- <<>>, gone <- {}, taken <- {}
Refines ==
  LET o == op'[1]  it == Contents  it2 == Contents' IN
  CASE o = "new" -> it2 = <<>>
    [] o = "put" -> it2 = IF Abs!Room(1) THEN Append(it, op'[2]) ELSE it
    [] o = "putf" -> it2 = IF Abs!Room(1) THEN <<op'[2]>> \o it ELSE it
    [] o \in {"get"} -> it2 = IF it = <<>> THEN it ELSE Tail(it)
    [] o \in {"getl"} -> it2 = IF it = <<>> THEN it ELSE SubSeq(it, 1, Len(it) - 1)
    [] o = "drop" -> it2 = SubSeq(it, Abs!DropCount(op'[2]) + 1, Len(it))
    [] o = "dropl" -> it2 = SubSeq(it, 1, Len(it) - Abs!DropCount(op'[2]))
    [] o = "clear" -> it2 = <<>>
    [] o = "setmax" -> it2 = (IF op'[2] >= 0 /\ Len(it) > op'[2]
                              THEN SubSeq(it, Len(it) - op'[2] + 1, Len(it)) ELSE it)
    [] o \in {"compact", "flat", "reserve", "canput"} -> it2 = it
Refinement == [][Refines]_<<implvars, op>>
=============================================================================
