---------------------------- MODULE MC_RefCount ----------------------------
(* What threads may do to one object, each with references of its own; none of
   them does anything without having one. The implementation: the operation
   updates the count in one step, learns whether it was the last reference, and
   if so the payload and then the object go. *)
EXTENDS RefCount, TLC, Json
CONSTANTS MaxRefs, Ops, Pay, Starts
VARIABLES S, own, op, last
vars == <<S, own, last>>
\* own: references in possession; the reference being dropped isn't one of those
\* last: who has found that theirs was the last reference
AllStarts == {<<1, 1, 1>>, <<2, 1, 0>>, <<1, 1, 0>>}
MoreStarts == AllStarts \cup {<<2, 2, 1>>, <<3, 1, 0>>, <<1, 2, 1>>}
Init == S = Begin(0, Pay) /\ own = <<0, 0, 0>> /\ last = 0 /\ op = <<>>
New == S = Begin(0, Pay) /\ own = <<0, 0, 0>> /\ UNCHANGED last
       /\ \E o \in Starts : S' = Begin(o[1] + o[2] + o[3], Pay) /\ own' = o /\ op' = <<"own", o[1], o[2], o[3]>>
Total == own[1] + own[2] + own[3]
Start(t) == S.pend[t] = Idle /\ own[t] > 0 /\ \E k \in Ops :
             /\ k = "ref" => Total < MaxRefs
             /\ S' = Inv(S, t, k)
             /\ own' = [own EXCEPT ![t] = IF Delta(k) = -1 THEN @ - 1 ELSE @]
             /\ op' = <<"inv", t, k>> /\ UNCHANGED last
Effect(t) == CanLin(S, t) /\ S' = Lin(S, t) /\ op' = <<"lin", t>>
             /\ own' = [own EXCEPT ![t] = IF Delta(S.pend[t].op) = 1 THEN @ + 1 ELSE @]
             /\ last' = IF S'.cnt = 0 THEN t ELSE last
Away(t) == last = t /\ ~Gone(S) /\ CanGo(S, t) /\ S' = (IF ~S.dropped THEN Drop(S) ELSE Free(S)) /\ UNCHANGED <<own, last>> /\ op' = <<>>
End(t) == S.pend[t].done /\ (last = t => Gone(S)) /\ CanRes(S, t) /\ S' = Res(S, t) /\ op' = <<"res", t>> /\ UNCHANGED <<own, last>>
Next == New \/ \E t \in Th : Start(t) \/ Effect(t) \/ Away(t) \/ End(t)
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
\* The one who has a reference, or uses one, has the object
Owned == (Total > 0 \/ \E t \in Th : S.pend[t] # Idle /\ ~S.pend[t].done) => S.cnt > 0 /\ ~S.freed
Counted == S.cnt = Total + Cardinality({t \in Th : CanLin(S, t) /\ Delta(S.pend[t].op) = -1})
Quiet == Running(S) = {} /\ S # Begin(0, Pay) => (S.freed <=> S.cnt = 0)
Inv1 == Owned /\ Counted /\ Quiet
=============================================================================
