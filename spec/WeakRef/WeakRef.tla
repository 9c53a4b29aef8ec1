------------------------------ MODULE WeakRef ------------------------------
(* Counted weak references to objects. Objects have strong references, which
   decide about their lives; a counted weak reference has a target and its own
   references. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS O, R
Start == [refs |-> [o \in O |-> 0],      \* strong references
          born |-> {}, dying |-> {},     \* the objects created so far, those which have to go now
          w |-> [r \in R |-> [refs |-> 0, t |-> 0]]]
Alive(S, o) == o # 0 /\ S.refs[o] > 0
There(S, r) == S.w[r].refs > 0
NewObj(S, o) == [S EXCEPT !.refs[o] = 1, !.born = @ \cup {o}]
RefObj(S, o) == [S EXCEPT !.refs[o] = @ + 1]
\* Nothing refers to the object that's gone
UnrefObj(S, o) == IF S.refs[o] > 1 THEN [S EXCEPT !.refs[o] = @ - 1]
                  ELSE [S EXCEPT !.refs[o] = 0, !.dying = @ \cup {o},
                                 !.w = [r \in R |-> [@[r] EXCEPT !.t = IF @ = o THEN 0 ELSE @]]]
Gone(S, o) == [S EXCEPT !.dying = @ \ {o}]
NewWeak(S, r, o) == [S EXCEPT !.w[r] = [refs |-> 1, t |-> o]]
RefWeak(S, r) == [S EXCEPT !.w[r].refs = @ + 1]
UnrefWeak(S, r) == IF S.w[r].refs > 1 THEN [S EXCEPT !.w[r].refs = @ - 1] ELSE [S EXCEPT !.w[r] = [refs |-> 0, t |-> 0]]
Set(S, r, o) == [S EXCEPT !.w[r].t = o]
\* What one gets, along with a new strong reference
Get(S, r) == S.w[r].t
AfterGet(S, r) == IF Get(S, r) = 0 THEN S ELSE RefObj(S, Get(S, r))
OnlyAlive(S) == \A r \in R : S.w[r].t # 0 => There(S, r) /\ Alive(S, S.w[r].t)
=============================================================================
