--------------------------- MODULE MC_TimeNotify ---------------------------
EXTENDS TimeNotify, TLC, Json
CONSTANTS H, MaxRefs, Faults
VARIABLES S, bz, fault, op
vars == <<S, bz, fault>>
Init == S = Start /\ bz = FALSE /\ fault = "" /\ op = <<>>
Client == ~S.pump \/ S.cur.at # 0
Settle(X) == IF X.fd /\ X.refs = 0 /\ X.cur.at = 0 THEN SysClose(X) ELSE X
Create(X) == IF fault = "create" THEN [X EXCEPT !.broken = TRUE]
             ELSE IF fault = "settime" THEN [SysCreate(X) EXCEPT !.broken = TRUE] ELSE SysArm(SysCreate(X))
Do(X, o) == Client /\ S' = X /\ op' = o /\ UNCHANGED <<bz, fault>>
Lib == /\ S.pump /\ S.cur.at = 0 /\ op' = <<>> /\ UNCHANGED fault
       /\ \/ S.cur.todo # {} /\ S' = (LET x == CHOOSE y \in S.cur.todo : \A z \in S.cur.todo : y <= z IN Enter(S, x)) /\ UNCHANGED bz
          \/ S.cur.todo = {} /\ S.red /\ S' = Emit(S) /\ UNCHANGED bz
          \/ S.cur.todo = {} /\ ~S.red /\ S.pend /\ S' = SysRead(Settle([S EXCEPT !.cur = Idle])) /\ UNCHANGED bz
          \/ S.cur.todo = {} /\ ~S.red /\ ~S.pend /\ S' = Settle([S EXCEPT !.cur = Idle, !.pump = FALSE]) /\ bz' = FALSE
Next == \/ ~bz /\ S.refs = 0 /\ Client /\ S' = New(Create(S)) /\ op' = <<"new">> /\ fault' = "" /\ UNCHANGED bz
        \/ S.refs \in 1..MaxRefs - 1 /\ Do(New(S), <<"new">>)
        \/ S.refs \in 1..MaxRefs - 1 /\ Do(Ref(S), <<"ref">>)
        \/ S.refs > 0 /\ Client /\ S' = Settle(Unref(S)) /\ bz' = (bz \/ (S.pump /\ S.refs = 1)) /\ op' = <<"unref">> /\ UNCHANGED fault
        \/ \E x \in H : S.refs > 0 /\ x \notin S.h /\ (\A y \in H : y < x => y \in S.h) /\ Do(AddH(S, x), <<"addh", x>>)
        \/ \E x \in S.h : Do(RmH(S, x), <<"rmh", x>>)
        \/ S.fd /\ S.armed /\ ~S.pend /\ ~bz /\ Do(Change(S), <<"change">>)
        \/ Faults /\ S.refs = 0 /\ ~S.pump /\ fault = "" /\ \E f \in {"create", "settime"} : fault' = f /\ op' = <<"fail", f>> /\ UNCHANGED <<S, bz>>
        \/ Faults /\ S.fd /\ S.armed /\ ~bz /\ Do(SysHup(S), <<"hup">>)
        \/ ~S.pump /\ (S.pend \/ (S.fd /\ ~S.armed)) /\ S' = [S EXCEPT !.pump = TRUE] /\ op' = <<"pump">> /\ UNCHANGED <<bz, fault>>
        \/ S.cur.at # 0 /\ S' = Leave(S) /\ op' = <<"ret">> /\ UNCHANGED <<bz, fault>>
        \/ Lib
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
QuietOutside == ~S.pump => Quiet(S)
OnlyConnected == S.cur.todo \subseteq S.h
=============================================================================
