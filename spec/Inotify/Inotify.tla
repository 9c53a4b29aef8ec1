------------------------------ MODULE Inotify ------------------------------
(* Directory watches: the part of the kernel which matters (one inotify
   descriptor with its watches and queue), the watch objects, their handlers
   and the dispatching. The state is one record, the operators produce the next
   one, so that the same definitions make up the bounded model (MC_Inotify) and
   follow the recorded traces (Trace_Inotify). *)
EXTENDS Seqs, Integers, FiniteSets

CONSTANTS D, WS           \* directories and watch slots
\* bits of the event mask
ACCESS == 0
MODIFY == 1
ATTRIB == 2
CLOSE_WRITE == 3
CLOSE_NOWRITE == 4
OPEN == 5
MOVED_FROM == 6
MOVED_TO == 7
CREATE == 8
DELETE == 9
DELETE_SELF == 10
MOVE_SELF == 11
UNMOUNT == 13
IGNORED == 15
MASK_ADD == 29
ISDIR == 30
EventBits == 0..11
Special == {UNMOUNT, IGNORED}

NoWatch == [refs |-> 0, live |-> FALSE, k |-> 0, d |-> 0, m |-> {}, h |-> {}]
NoEvent == [k |-> 0, m |-> {}, c |-> 0, n |-> ""]
Idle == [on |-> FALSE, ev |-> NoEvent, todo |-> {}, may |-> {}, at |-> <<>>]
Start == [ ex |-> D,                 \* the directories that exist
           fd |-> FALSE,             \* the descriptor is there
           kw |-> [d \in D |-> [k |-> 0, m |-> {}]],   \* what the kernel watches
           gone |-> {},              \* kernel watches removed by the kernel
           q |-> <<>>,               \* events nobody has read
           broken |-> FALSE,         \* reading has failed, anything may be lost
           buf |-> <<>>,             \* events which have been read
           w |-> [i \in WS |-> NoWatch],
           cur |-> Idle,             \* the event being delivered
           pump |-> FALSE,
           adds |-> <<>> ]           \* registrations nobody has claimed yet

-----------------------------------------------------------------------------
(* The kernel *)
Append1(q, e) == IF q # <<>> /\ IGNORED \notin e.m /\ q[Len(q)].k = e.k /\ q[Len(q)].m = e.m /\ q[Len(q)].n = e.n
                 THEN q ELSE Append(q, e)
\* Something has happened in directory d
Happen(S, d, m, c, n) ==
  IF S.fd /\ S.kw[d].k # 0 /\ m \cap S.kw[d].m \cap EventBits # {}
  THEN [S EXCEPT !.q = Append1(@, [k |-> S.kw[d].k, m |-> m, c |-> c, n |-> n])] ELSE S
\* The kernel forgets the watch
Forget(S, d) ==
  IF S.kw[d].k = 0 THEN S
  ELSE [S EXCEPT !.q = Append(@, [k |-> S.kw[d].k, m |-> {IGNORED}, c |-> 0, n |-> ""]),
                 !.kw[d] = [k |-> 0, m |-> {}]]
SysInit(S) == [S EXCEPT !.fd = TRUE, !.q = <<>>, !.broken = FALSE, !.gone = {}, !.kw = [d \in D |-> [k |-> 0, m |-> {}]]]
SysClose(S) == [S EXCEPT !.fd = FALSE, !.q = <<>>, !.buf = <<>>, !.broken = FALSE, !.gone = {},
                         !.kw = [d \in D |-> [k |-> 0, m |-> {}]]]
SysAdd(S, d, m, k) ==
  [S EXCEPT !.kw[d] = [k |-> k, m |-> (IF MASK_ADD \in m THEN @.m ELSE {}) \cup (m \cap EventBits)],
            !.adds = Append(@, [d |-> d, m |-> m, ok |-> TRUE])]
SysAddFailed(S, d, m) == [S EXCEPT !.adds = Append(@, [d |-> d, m |-> m, ok |-> FALSE])]
KernelHas(S, k) == \E d \in D : S.kw[d].k = k
SysRm(S, k) == IF KernelHas(S, k) THEN Forget(S, CHOOSE d \in D : S.kw[d].k = k) ELSE [S EXCEPT !.gone = @ \ {k}]

\* What happens to files
Create(S, d, n) == Happen(Happen(Happen(S, d, {CREATE}, 0, n), d, {OPEN}, 0, n), d, {CLOSE_WRITE}, 0, n)
WriteTo(S, d, n) == Happen(Happen(Happen(S, d, {OPEN}, 0, n), d, {MODIFY}, 0, n), d, {CLOSE_WRITE}, 0, n)
Attrib(S, d, n) == Happen(S, d, {ATTRIB}, 0, n)
AttribSelf(S, d) == Happen(S, d, {ATTRIB, ISDIR}, 0, "")
Unlink(S, d, n) == Happen(S, d, {DELETE}, 0, n)
MakeSub(S, d, n) == Happen(S, d, {CREATE, ISDIR}, 0, n)
RemoveSub(S, d, n) == Happen(S, d, {DELETE, ISDIR}, 0, n)
Move(S, d, n, d2, n2, dir) ==
  LET x == IF dir THEN {ISDIR} ELSE {}
  IN Happen(Happen(S, d, {MOVED_FROM} \cup x, 1, n), d2, {MOVED_TO} \cup x, 1, n2)
MoveSelf(S, d) == Happen(S, d, {MOVE_SELF}, 0, "")
RemoveDir(S, d) ==
  LET S1 == Happen(S, d, {DELETE_SELF}, 0, "")
      S2 == Forget(S1, d)
  IN [S2 EXCEPT !.ex = @ \ {d}, !.gone = IF S.kw[d].k = 0 THEN @ ELSE @ \cup {S.kw[d].k}]
MakeDir(S, d) == [S EXCEPT !.ex = @ \cup {d}]

-----------------------------------------------------------------------------
(* Watches *)
There(S, i) == S.w[i].refs > 0
Live(S, i) == There(S, i) /\ S.w[i].live
Used(S) == \E i \in WS : There(S, i)
Watched(S, k) == \E i \in WS : Live(S, i) /\ S.w[i].k = k
\* The handlers of those no longer there don't have to be called
Excuse(S, i) == [S EXCEPT !.cur.may = @ \cup {p \in S.cur.todo : p[1] = i}, !.cur.todo = {p \in @ : p[1] # i}]
NewWatch(S, i, d, m) == [S EXCEPT !.w[i] = [refs |-> 1, live |-> TRUE, k |-> S.kw[d].k, d |-> d, m |-> m, h |-> {}], !.adds = <<>>]
RefWatch(S, i) == [S EXCEPT !.w[i].refs = @ + 1]
UnrefWatch(S, i) == IF S.w[i].refs > 1 THEN [S EXCEPT !.w[i].refs = @ - 1]
                    ELSE [Excuse(S, i) EXCEPT !.w[i] = NoWatch]
DestroyWatch(S, i) == UnrefWatch([Excuse(S, i) EXCEPT !.w[i].live = FALSE], i)
Matches(S, i, e) == Live(S, i) /\ S.w[i].k = e.k /\ e.m \cap (S.w[i].m \cup Special) # {}
AddHandler(S, i, h) ==
  LET S1 == [S EXCEPT !.w[i].h = @ \cup {h}]
  IN IF S.cur.on /\ Matches(S, i, S.cur.ev) THEN [S1 EXCEPT !.cur.may = @ \cup {<<i, h>>}] ELSE S1
RemoveHandler(S, i, h) == [S EXCEPT !.w[i].h = @ \ {h}, !.cur.todo = @ \ {<<i, h>>}, !.cur.may = @ \ {<<i, h>>}]

-----------------------------------------------------------------------------
(* Dispatching *)
\* Who has to be told
Due(S, e) == UNION {{<<i, h>> : h \in S.w[i].h} : i \in {j \in WS : Matches(S, j, e)}}
Read(S, n, c) == [S EXCEPT !.q = After(@, n), !.buf = @ \o [i \in 1..n |-> [S.q[i] EXCEPT !.c = c[i]]]]
Pop(S, i) == [S EXCEPT !.buf = After(@, i), !.cur = [on |-> TRUE, ev |-> S.buf[i], todo |-> Due(S, S.buf[i]), may |-> {}, at |-> <<>>]]
\* Position of the first event anyone is interested in, 0 if there's none
FirstDue(S) == LET I == {i \in 1..Len(S.buf) : Due(S, S.buf[i]) # {}} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* The state in which handler h of watch i is about to be called, all the possibilities
Next1(S, i, h) ==
  (IF S.cur.on /\ <<i, h>> \in S.cur.todo \cup S.cur.may THEN {S} ELSE {}) \cup
  (IF S.cur.todo = {} /\ FirstDue(S) # 0 THEN {s \in {Pop(S, FirstDue(S))} : <<i, h>> \in s.cur.todo} ELSE {})
Enter(S, i, h) == [S EXCEPT !.cur.at = <<i, h>>, !.cur.todo = @ \ {<<i, h>>}, !.cur.may = @ \ {<<i, h>>}]
Leave(S) == [S EXCEPT !.cur.at = <<>>]
Finished(S) == S.cur.at = <<>> /\ S.cur.todo = {} /\ FirstDue(S) = 0 /\ (S.fd /\ ~S.broken => S.q = <<>>)

-----------------------------------------------------------------------------
(* What holds whenever nothing is going on *)
\* The descriptor is open as long as there are watches
Descriptor(S) == S.fd = Used(S)
\* The kernel watches what it's been asked to watch, and nothing else
Registered(S) ==
  /\ \A d \in D : S.kw[d].k # 0 => Watched(S, S.kw[d].k)
  /\ \A i \in WS : Live(S, i) => \/ S.kw[S.w[i].d].k = S.w[i].k /\ S.w[i].m \cap EventBits \subseteq S.kw[S.w[i].d].m
                                 \/ S.w[i].k \in S.gone
Quiet(S) == Descriptor(S) /\ Registered(S) /\ S.adds = <<>>
=============================================================================
