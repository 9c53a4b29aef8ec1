----------------------------- MODULE RefCount -----------------------------
(* A counted object which threads reference and unreference. An operation takes
   effect at one moment between its beginning and its end. The one that takes
   the count to zero makes the object go, and what it owns along with it, once. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Th
Delta(op) == CASE op \in {"ref", "xref"} -> 1 [] op \in {"unref", "xunref", "data"} -> -1 [] op \in {"use", "null"} -> 0
Idle == [op |-> "", done |-> FALSE]
Begin(c, pay) == [cnt |-> c, freed |-> FALSE, dropped |-> ~pay, pend |-> [t \in Th |-> Idle]]
Inv(S, t, op) == [S EXCEPT !.pend[t] = [op |-> op, done |-> FALSE]]
CanLin(S, t) == S.pend[t] # Idle /\ ~S.pend[t].done
Lin(S, t) == [S EXCEPT !.cnt = @ + Delta(S.pend[t].op), !.pend[t].done = TRUE]
\* A lot of references, which aren't the last ones
Many(S, n) == [S EXCEPT !.cnt = @ + n]
Running(S) == {t \in Th : S.pend[t] # Idle}
\* It goes when nobody needs it any more, and it's done by someone who's dropping a reference
CanGo(S, t) == S.cnt = 0 /\ S.pend[t].done /\ Delta(S.pend[t].op) = -1
Drop(S) == [S EXCEPT !.dropped = TRUE]
Free(S) == [S EXCEPT !.freed = TRUE]
Gone(S) == S.freed /\ S.dropped
CanRes(S, t) == S.pend[t].done /\ (Running(S) = {t} /\ S.cnt = 0 => Gone(S))
Res(S, t) == [S EXCEPT !.pend[t] = Idle]
\* Whoever has a reference has the object
Safe(S) == S.cnt >= 0 /\ (S.freed \/ S.dropped => S.cnt = 0 \/ ~S.freed)
=============================================================================
