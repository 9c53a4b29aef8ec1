----------------------------- MODULE TimeNotify -----------------------------
(* The shared notifier of system time changes: one timer descriptor as long as
   anyone needs it, changes which haven't been noticed yet, handlers *)
EXTENDS Seqs, Integers, FiniteSets

Idle == [on |-> FALSE, todo |-> {}, may |-> {}, at |-> 0]
Start == [refs |-> 0,        \* references held by the client
          fd |-> FALSE,      \* the timer is there
          armed |-> FALSE,   \* and it's waiting for a change
          broken |-> FALSE,  \* it couldn't be set up
          pend |-> FALSE,    \* there has been a change
          red |-> FALSE,     \* ... which has been noticed
          h |-> {},          \* connected handlers
          cur |-> Idle, pump |-> FALSE]
SysCreate(S) == [S EXCEPT !.fd = TRUE, !.armed = FALSE, !.pend = FALSE]
SysArm(S) == [S EXCEPT !.armed = TRUE]
SysClose(S) == [S EXCEPT !.fd = FALSE, !.armed = FALSE, !.pend = FALSE, !.red = FALSE]
SysRead(S) == [S EXCEPT !.pend = FALSE, !.red = TRUE]
\* Something is wrong with the descriptor. Nothing more can come from it, even
\* if there has been something.
SysHup(S) == IF S.fd THEN [S EXCEPT !.armed = FALSE, !.pend = FALSE, !.broken = TRUE] ELSE S
Change(S) == [S EXCEPT !.pend = @ \/ (S.fd /\ S.armed)]

New(S) == [S EXCEPT !.refs = @ + 1]
Ref(S) == [S EXCEPT !.refs = @ + 1]
\* Nobody's handlers have to be called
Unref(S) == IF S.refs > 1 THEN [S EXCEPT !.refs = @ - 1]
            ELSE [S EXCEPT !.refs = 0, !.h = {}, !.broken = FALSE, !.cur.may = @ \cup S.cur.todo, !.cur.todo = {}]
AddH(S, x) == [S EXCEPT !.h = @ \cup {x}, !.cur.may = IF S.cur.on THEN @ \cup {x} ELSE @]
RmH(S, x) == [S EXCEPT !.h = @ \ {x}, !.cur.todo = @ \ {x}, !.cur.may = @ \ {x}]

Emit(S) == [S EXCEPT !.red = FALSE, !.cur = [on |-> TRUE, todo |-> S.h, may |-> {}, at |-> 0]]
Next1(S, x) == (IF S.cur.on /\ x \in S.cur.todo \cup S.cur.may THEN {S} ELSE {}) \cup
               (IF S.red /\ S.cur.todo = {} THEN {s \in {Emit(S)} : x \in s.cur.todo} ELSE {})
Enter(S, x) == [S EXCEPT !.cur.at = x, !.cur.todo = @ \ {x}, !.cur.may = @ \ {x}]
Leave(S) == [S EXCEPT !.cur.at = 0]
Finished(S) == S.cur.at = 0 /\ S.cur.todo = {} /\ (S.red => S.h = {}) /\ ~S.pend
\* When nothing is going on
Quiet(S) == /\ S.fd => S.refs > 0
            /\ S.refs > 0 /\ ~S.broken => S.fd /\ S.armed
=============================================================================
