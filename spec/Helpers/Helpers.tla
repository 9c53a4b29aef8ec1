------------------------------ MODULE Helpers ------------------------------
(* Signal handlers and event sources with their stored identifiers.
   Identifiers are numbers given by the test in the order of creation, 0 is none.
   Every handler and every source has a destroy notification, in which the client
   has control too and can do whatever it can do elsewhere. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, NV      \* number of handler slots and of source variables
Start == [conn |-> <<>>,                        \* connected handlers, in the order of connection
          slot |-> [i \in 1..NS |-> 0],
          src |-> <<>>,                         \* attached sources, in the order of attachment
          stay |-> {},                          \* those which aren't removed by being dispatched
          var |-> [i \in 1..NV |-> 0],
          due |-> {},                           \* removed while being called, notified after that
          next |-> 1, refs |-> 1,
          st |-> <<>>]                          \* what's going on, innermost last
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)
Frame == [k |-> "", left |-> <<>>, now |-> 0, n |-> 0, i |-> 0, x |-> 0, ret |-> 0]
Push(S, f) == [S EXCEPT !.st = Append(@, f)]
Top(S) == S.st[Len(S.st)]
Pop(S) == [S EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Alter(S, f) == [S EXCEPT !.st[Len(S.st)] = f]
In(S, k) == S.st # <<>> /\ Top(S).k \in k
\* The client has control
Free(S) == IF S.st = <<>> THEN TRUE ELSE Top(S).k = "gone" \/ Top(S).now # 0
Busy(S, x) == \E j \in 1..Len(S.st) : S.st[j].now = x

(* A handler goes to the given slot, or is kept elsewhere if it's 0 *)
Connect(S, i) == [S EXCEPT !.conn = Append(@, S.next), !.next = @ + 1,
                           !.slot = [j \in 1..NS |-> IF j = i THEN S.next ELSE @[j]]]
AddSource(S, v, stay) == [S EXCEPT !.src = Append(@, S.next), !.next = @ + 1, !.var[v] = S.next,
                                   !.stay = IF stay THEN @ \cup {S.next} ELSE @]

(* Disconnecting the first n slots, one after another. Each is empty by the time the
   handler is gone *)
CallDisc(S, n) == Push(S, [Frame EXCEPT !.k = "disc", !.n = n])
RECURSIVE Skip(_)
Skip(S) == LET f == Top(S)
               x == S.slot[f.i + 1] IN
  IF f.i >= f.n THEN S
  ELSE IF x = 0 THEN Skip(Alter(S, [f EXCEPT !.i = @ + 1]))
  ELSE IF Busy(S, x)
       THEN Skip([Alter(S, [f EXCEPT !.i = @ + 1]) EXCEPT !.slot[f.i + 1] = 0, !.conn = Del(@, x), !.due = @ \cup {x}])
       ELSE S
(* An emission in progress may keep any handler for some time *)
CanDefer(S) == In(S, {"disc"}) /\ Top(Skip(S)).i < Top(S).n
               /\ \E j \in 1..Len(S.st) : S.st[j].k = "emit"
Defer(S) == LET N == Skip(S)
                f == Top(N)
                x == S.slot[f.i + 1]
            IN [Alter(N, [f EXCEPT !.i = @ + 1]) EXCEPT !.slot[f.i + 1] = 0, !.conn = Del(@, x), !.due = @ \cup {x}]
(* Whoever stores the identifier of a source forgets it before the source is gone *)
Removed(S, v) == S.var[v] # 0
CallRemove(S, v) == LET x == S.var[v] IN
  IF x = 0 THEN Push(S, [Frame EXCEPT !.k = "rm"])
  ELSE LET R == [S EXCEPT !.var[v] = 0, !.src = Del(@, x)] IN
       IF Busy(S, x) THEN Push([R EXCEPT !.due = @ \cup {x}], [Frame EXCEPT !.k = "rm", !.ret = 1])
       ELSE Push(R, [Frame EXCEPT !.k = "rm", !.ret = 1, !.x = x])
(* What the library may notify about now. A handler which was disconnected during emission
   may be gone some time after that, before the emission is over *)
Leaving(S) == LET f == Top(Skip(S)) IN
  CASE Top(S).k = "disc" -> IF f.i < f.n THEN {S.slot[f.i + 1]} ELSE {}
    [] Top(S).k = "rm" -> {Top(S).x} \ {0}
    [] Top(S).k \in {"emit", "iter"} -> {x \in S.due : ~Busy(S, x)}
Gone(S, x) == LET N == Skip(S)
                  f == Top(N)
                  P == CASE Top(S).k = "disc" -> [Alter(N, [f EXCEPT !.i = @ + 1]) EXCEPT !.slot[f.i + 1] = 0, !.conn = Del(@, x)]
                         [] Top(S).k = "rm" -> Alter(S, [Top(S) EXCEPT !.x = 0])
                         [] OTHER -> [S EXCEPT !.due = @ \ {x}]
              IN Push(P, [Frame EXCEPT !.k = "gone", !.x = x])
CanGone(S) == S.st # <<>> /\ ~Free(S) /\ Leaving(S) # {}
GoneRet(S) == Pop(S)
CanRet(S) == In(S, {"disc", "rm"}) /\ Leaving(S) = {}
Ret(S) == Pop(Skip(S))

(* Emission of the signal, dispatching of the sources *)
Emit(S) == Push(S, [Frame EXCEPT !.k = "emit", !.left = S.conn])
Iter(S) == Push(S, [Frame EXCEPT !.k = "iter", !.left = S.src])
Alive(S) == SelectSeq(Top(S).left, LAMBDA x : Has(S.conn, x) \/ Has(S.src, x))
CanFire(S) == In(S, {"emit", "iter"}) /\ ~Free(S) /\ Alive(S) # <<>>
Fire(S) == LET x == Head(Alive(S))
               R == Alter(S, [Top(S) EXCEPT !.left = Tail(Alive(S)), !.now = x]) IN
  IF Top(S).k = "emit" \/ x \in S.stay THEN R
  ELSE [R EXCEPT !.src = Del(@, x), !.due = @ \cup {x}, !.var = [v \in 1..NV |-> IF @[v] = x THEN 0 ELSE @[v]]]
CanFireRet(S) == In(S, {"emit", "iter"}) /\ Free(S)
FireRet(S) == Alter(S, [Top(S) EXCEPT !.now = 0])
CanOver(S) == In(S, {"emit", "iter"}) /\ ~Free(S) /\ Leaving(S) = {} /\ Alive(S) = <<>>
Over(S) == Pop(S)

Ok(S) == /\ \A i \in 1..NS : S.slot[i] # 0 => Has(S.conn, S.slot[i])
         /\ \A v \in 1..NV : S.var[v] # 0 => Has(S.src, S.var[v])
         /\ \A i, j \in 1..NS : S.slot[i] = S.slot[j] /\ i # j => S.slot[i] = 0
         /\ S.st = <<>> => S.due = {}
         \* nothing is removed twice
         /\ \A i, j \in 1..Len(S.st) : S.st[i].x = S.st[j].x /\ i # j => S.st[i].x = 0
         /\ \A x \in S.due : ~Has(S.conn, x) /\ ~Has(S.src, x)
         /\ \A i \in 1..Len(S.st) : ~Has(S.conn, S.st[i].x) /\ ~Has(S.src, S.st[i].x)
-----------------------------------------------------------------------------
(* Helpers without a state. Absent arguments are FALSE *)
PtrvLen(v) == IF v.none THEN 0 ELSE v.n
MemDup(none, b) == IF none \/ b = <<>> THEN [none |-> TRUE, b |-> <<>>] ELSE [none |-> FALSE, b |-> b]
=============================================================================
