---------------------------- MODULE MC_IdleQueue ----------------------------
EXTENDS IdleQueue, TLC, Json
CONSTANTS N, MaxDepth, Tags, MaxRefs, Kinds, Other, Cancels, Nested
VARIABLE op
vars == <<st, refs, items, stack, ph, nd>>
Init == IQInit /\ op = <<>>
used == Cardinality(DOMAIN ph)
cbs == Cardinality({i \in 1..Len(stack) : stack[i].k = "cb"})
Deep == cbs < MaxDepth
fresh == used + 1
B(b) == IF b THEN 1 ELSE 0
Next ==
  \/ \E q \in Q : NewQ(q) /\ used = 0 /\ op' = <<"new", q>>
  \/ \E q \in Q, t \in Tags, k \in Kinds :
       used < N /\ Add(q, fresh, t, k[1], k[2]) /\ op' = <<"add", q, fresh, t, B(k[1]), B(k[2])>>
  \/ Other /\ used < N /\ Deep /\ AddNone(fresh, TRUE) /\ op' = <<"add", 0, fresh, 1, 1, 1>>
  \/ \E q \in Q : refs[q] < MaxRefs /\ Ref(q) /\ op' = <<"ref", q>>
  \/ \E q \in Q : Deep /\ Cancels /\ Unref(q) /\ op' = <<"unref", q>>
  \/ \E q \in Q : Deep /\ Cancels /\ Free(q) /\ op' = <<"free", q>>
  \/ \E q \in Q, t \in Tags : Deep /\ Cancels /\ CancelTag(q, t) /\ op' = <<"cancel", q, t>>
  \/ \E q \in Q : Deep /\ Cancels /\ CancelAll(q) /\ op' = <<"cancelall", q>>
  \/ Nested /\ Deep /\ stack # <<>> /\ Iterate /\ op' = <<"niter">>
  \/ stack = <<>> /\ Iterate /\ (\E q \in Q : st[q] # "none") /\ op' = <<"iter">>
  \/ Silent /\ op' = <<>>
  \/ RunCb /\ op' = <<>>
  \/ DestroyCb /\ op' = <<>>
  \/ CbReturn /\ op' = <<"cbret">>
  \/ Return /\ op' = <<>>
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
\* Everything that is over has been destroyed exactly once (all calls of the
\* model with Kinds = {<<TRUE, TRUE>>} have a destroy function)
DestroyedInTheEnd == stack = <<>> => \A x \in DOMAIN ph : ph[x] # "waiting" => nd[x] = 1
Some == {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>}
Full == {<<TRUE, TRUE>>}
RunOnly == {<<TRUE, FALSE>>}
=============================================================================
