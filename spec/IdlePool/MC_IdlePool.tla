---------------------------- MODULE MC_IdlePool ----------------------------
EXTENDS IdlePool, TLC, Json
CONSTANTS N, MaxDepth, Privates, Ctx, Threads, Gone, Workers, Nested
VARIABLES op, used
vars == <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel, stack, used>>
Init == IPInit /\ op = <<>> /\ used = 0
Keep == UNCHANGED used
cbs == Cardinality({i \in 1..Len(stack) : stack[i].k = "cb"})
Deep == cbs < MaxDepth
Pools == P \ {Main}
NextPool == IF \E p \in Pools : pst[p] = "none"
            THEN CHOOSE p \in Pools : pst[p] = "none" /\ \A r \in Pools : pst[r] = "none" => p <= r ELSE 0
Slot == NextPool > 0
C == Settled
Next ==
  \/ C /\ Slot /\ Privates /\ NewPool(NextPool) /\ op' = <<"new">> /\ Keep
  \/ \E s \in S : C /\ (Slot \/ var[s] # 0) /\ Get(s, IF var[s] # 0 THEN var[s] ELSE NextPool) /\ op' = <<"get", s>> /\ Keep
  \/ \E p \in Pools : C /\ cref[p] < 2 /\ Ref(p) /\ op' = <<"ref", p>> /\ Keep
  \/ \E p \in Pools : C /\ Unref(p) /\ op' = <<"unref", p>> /\ Keep
  \/ \E p \in P : C /\ used < N /\ Add(p, used + 1, TRUE, FALSE) /\ op' = <<"add", p, used + 1, "g">> /\ used' = used + 1
  \/ \E p \in P : C /\ used < N /\ Privates /\ Add(p, used + 1, TRUE, TRUE) /\ op' = <<"add", p, used + 1, "Ko">> /\ used' = used + 1
  \/ \E p \in P : C /\ Deep /\ Drain(p) /\ op' = <<"drain", p>> /\ Keep
  \/ \E p \in Pools : C /\ Deep /\ Destroy(p) /\ op' = <<"destroy", p>> /\ Keep
  \/ \E x \in kept : C /\ Deep /\ DropKept(x) /\ op' = <<"dropkept", x>> /\ Keep
  \/ C /\ Ctx /\ SwitchContext /\ op' = <<"ctx">> /\ Keep
  \/ C /\ Gone /\ DestroyContext /\ op' = <<"ctxgone">> /\ Keep
  \/ \E c \in 1..2 : C /\ (c = 1 \/ Ctx) /\ stack = <<>> /\ Iterate(c) /\ op' = <<"iter", c>> /\ Keep
  \/ \E c \in 1..2 : C /\ Nested /\ (c = 1 \/ Ctx) /\ Deep /\ stack # <<>> /\ Iterate(c) /\ op' = <<"niter", c>> /\ Keep
  \/ C /\ Threads /\ Slot /\ used < N /\ \E d \in BOOLEAN : Thread(NextPool, <<used + 1>>, d) /\ op' = <<"thr", used + 1, 1, IF d THEN 1 ELSE 0>> /\ used' = used + 1
  \/ C /\ Workers /\ Slot /\ \E o \in BOOLEAN : WStart(NextPool, o) /\ op' = <<"wstart", IF o THEN 1 ELSE 0>> /\ Keep
  \/ C /\ Workers /\ used < N /\ WAdd(<<used + 1>>) /\ op' = <<"wadd", used + 1, 1>> /\ used' = used + 1
  \/ C /\ Workers /\ Deep /\ WDrain /\ op' = <<"wdrain">> /\ Keep
  \/ C /\ Workers /\ WIterate /\ op' = <<"witer">> /\ Keep
  \/ C /\ Workers /\ WExit /\ op' = <<"wexit">> /\ Keep
  \/ Silent /\ op' = <<>> /\ Keep
  \/ RelCb /\ op' = <<>> /\ Keep
  \/ CbReturn /\ op' = <<"cbret">> /\ Keep
  \/ Return /\ op' = <<>> /\ Keep
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
=============================================================================
