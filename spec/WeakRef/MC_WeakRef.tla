----------------------------- MODULE MC_WeakRef -----------------------------
EXTENDS WeakRef, TLC, Json
CONSTANTS MaxRefs, MaxWRefs, MaxDepth
VARIABLES S, depth, op
vars == <<S, depth>>
Init == S = Start /\ depth = 0 /\ op = <<>>
Do(X, o) == S.dying = {} /\ S' = X /\ op' = o /\ UNCHANGED depth
Next == \/ \E o \in O \ S.born : (\A p \in O : p < o => p \in S.born) /\ Do(NewObj(S, o), <<"obj", o>>)
        \/ \E o \in O : S.refs[o] \in 1..MaxRefs - 1 /\ Do(RefObj(S, o), <<"oref", o>>)
        \/ \E o \in O : Alive(S, o) /\ depth < MaxDepth /\ Do(UnrefObj(S, o), <<"ounref", o>>)
        \/ \E r \in R, o \in O \cup {0} : ~There(S, r) /\ (o = 0 \/ Alive(S, o)) /\ Do(NewWeak(S, r, o), <<"wnew", r, o>>)
        \/ \E r \in R : S.w[r].refs \in 1..MaxWRefs - 1 /\ Do(RefWeak(S, r), <<"wref", r>>)
        \/ \E r \in R : There(S, r) /\ Do(UnrefWeak(S, r), <<"wunref", r>>)
        \/ \E r \in R, o \in O \cup {0} : There(S, r) /\ (o = 0 \/ Alive(S, o)) /\ Do(Set(S, r, o), <<"wset", r, o>>)
        \/ \E r \in R : There(S, r) /\ (Get(S, r) # 0 => S.refs[Get(S, r)] < MaxRefs) /\ Do(AfterGet(S, r), <<"wget", r>>)
        \/ \E o \in S.dying : S' = Gone(S, o) /\ depth' = depth + 1 /\ op' = <<>>
        \/ depth > 0 /\ S.dying = {} /\ depth' = depth - 1 /\ op' = <<"ret">> /\ UNCHANGED S
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
Inv == OnlyAlive(S)
=============================================================================
