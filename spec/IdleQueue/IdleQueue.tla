------------------------------ MODULE IdleQueue ------------------------------
(* Idle queues and the default main loop, as seen by a client whose run and  *)
(* destroy callbacks may use the queues again. Operations that may call back *)
(* are split into call, callbacks and return (see stack).                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Q        \* names of queues (positive numbers)

VARIABLES
  st,      \* queue -> "none", "live", "dead"
  refs,    \* queue -> references held by the client
  items,   \* queue -> waiting calls, oldest first
  stack,   \* what is in progress, innermost first
  ph,      \* call -> what has become of it  (ghost)
  nd       \* call -> number of times its destroy function was called (ghost)

iqvars == <<st, refs, items, stack, ph, nd>>

(* Frames:
   k = "iter"    one iteration of the main loop: queues still to be served
   k = "disp"    queue q is running the calls it had when it was reached
   k = "canc"    queue q is withdrawing the calls it had (cancel all, last
                 unref, free)
   k = "one"     one call was withdrawn or refused: nothing but its destroy
   k = "plain"   nothing left to do
   k = "todo"    the destroy function of call x is about to be called
   k = "cb"      the client is in a callback (of call x, what = run/destroy)
   r is what the operation returns; ready is used by iter only; free tells a
   queue being freed whose reference is yet to be dropped *)
Fr(k, q, r) == [k |-> k, q |-> q, r |-> r, ready |-> {}, any |-> FALSE, x |-> 0, d |-> FALSE, what |-> "", free |-> FALSE]
Top == Head(stack)
Client == IF stack = <<>> THEN TRUE ELSE Top.k = "cb"
Push(f) == stack' = <<f>> \o stack
Freeing(q) == Cardinality({i \in 1..Len(stack) : stack[i].free /\ stack[i].q = q})
\* references the client can still drop
Avail(q) == refs[q] - Freeing(q)
Usable(q) == q \in Q /\ st[q] = "live" /\ Client
InLoop == \E i \in 1..Len(stack) : stack[i].k = "iter"

IQInit ==
  /\ st = [q \in Q |-> "none"] /\ refs = [q \in Q |-> 0] /\ items = [q \in Q |-> <<>>]
  /\ stack = <<>> /\ ph = <<>> /\ nd = <<>>

Item(x, tag, run, d) == [x |-> x, tag |-> tag, run |-> run, d |-> d, m |-> FALSE]
Marked(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.m = TRUE]]
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Empty(q) == items[q] = <<>>
FirstMarked(q) == IF Empty(q) THEN FALSE ELSE Head(items[q]).m
\* A queue that has become empty is not served in this iteration any more
Unready(q, s) == [i \in 1..Len(s) |-> IF s[i].k = "iter" THEN [s[i] EXCEPT !.ready = @ \ {q}] ELSE s[i]]

--------------------------------------------------------------------------
(* What the client can do *)
NewQ(q) ==
  /\ stack = <<>> /\ q \in Q /\ st[q] # "live"
  /\ st' = [st EXCEPT ![q] = "live"] /\ refs' = [refs EXCEPT ![q] = 1]
  /\ UNCHANGED <<items, stack, ph, nd>>
Add(q, x, tag, run, d) ==
  /\ Usable(q) /\ Avail(q) > 0 /\ x \notin DOMAIN ph
  /\ items' = [items EXCEPT ![q] = Append(@, Item(x, tag, run, d))]
  /\ ph' = Set(ph, x, "waiting") /\ nd' = Set(nd, x, 0)
  /\ UNCHANGED <<st, refs, stack>>
\* There is no queue: the call is refused
AddNone(x, d) ==
  /\ Client /\ x \notin DOMAIN ph
  /\ ph' = Set(ph, x, "withdrawn") /\ nd' = Set(nd, x, 0)
  /\ stack' = (IF d THEN <<[Fr("todo", 0, 0) EXCEPT !.x = x, !.d = TRUE]>> ELSE <<>>) \o <<Fr("plain", 0, 0)>> \o stack
  /\ UNCHANGED <<st, refs, items>>
HasTag(q, tag) == \E i \in 1..Len(items[q]) : items[q][i].tag = tag
ContainsRet(q, tag) == HasTag(q, tag)
Look == Client /\ UNCHANGED iqvars
Ref(q) == Usable(q) /\ refs[q] > 0 /\ refs' = [refs EXCEPT ![q] = @ + 1] /\ UNCHANGED <<st, items, stack, ph, nd>>

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
CancelTag(q, tag) ==
  /\ Usable(q)
  /\ IF HasTag(q, tag)
     THEN LET i == CHOOSE i \in 1..Len(items[q]) : items[q][i].tag = tag /\
                     \A j \in 1..(i - 1) : items[q][j].tag # tag
              it == items[q][i]
              rest == Remove(items[q], i)
              s == (IF it.d THEN <<[Fr("todo", q, 0) EXCEPT !.x = it.x, !.d = TRUE]>> ELSE <<>>)
                   \o <<Fr("one", q, 1)>> \o stack
          IN /\ items' = [items EXCEPT ![q] = rest]
             /\ ph' = [ph EXCEPT ![it.x] = "withdrawn"]
             \* whether the loop still comes to this queue is settled after the destroy call
             /\ stack' = s
     ELSE Push(Fr("plain", q, 0)) /\ UNCHANGED <<items, ph>>
  /\ UNCHANGED <<st, refs, nd>>
CancelAll(q) ==
  /\ Usable(q)
  /\ items' = [items EXCEPT ![q] = Marked(@)]
  /\ Push(Fr("canc", q, 0))
  /\ UNCHANGED <<st, refs, ph, nd>>
Free(q) ==
  /\ Usable(q) /\ Avail(q) > 0
  /\ items' = [items EXCEPT ![q] = Marked(@)]
  /\ Push([Fr("canc", q, 0) EXCEPT !.free = TRUE])
  /\ UNCHANGED <<st, refs, ph, nd>>
\* Dropping a reference; the last one withdraws everything
Dropped(q, below) ==
  /\ refs' = [refs EXCEPT ![q] = @ - 1]
  /\ IF refs[q] = 1
     THEN /\ st' = [st EXCEPT ![q] = "dead"]
          /\ items' = [items EXCEPT ![q] = Marked(@)]
          /\ stack' = <<Fr("canc", q, 0)>> \o below
     ELSE stack' = <<Fr("plain", q, 0)>> \o below /\ UNCHANGED <<st, items>>
Unref(q) ==
  /\ Usable(q) /\ Avail(q) > 0 /\ Dropped(q, stack) /\ UNCHANGED <<ph, nd>>
\* A call may run the main loop too. The queue which is making that call isn't
\* served by that (unless it has been emptied and filled again meanwhile), and
\* the loop in progress has nothing more to serve after that.
InDisp(q) == \E i \in 1..Len(stack) : stack[i].k = "disp" /\ stack[i].q = q
Over(s) == [i \in 1..Len(s) |-> IF s[i].k = "iter" THEN [s[i] EXCEPT !.ready = {}] ELSE s[i]]
Iterate ==
  /\ Client /\ \A i \in 1..Len(stack) : stack[i].k = "cb" => stack[i].what = "run"
  /\ \E R \in SUBSET {q \in Q : ~Empty(q) /\ InDisp(q)} :
       stack' = <<[Fr("iter", 0, 0) EXCEPT !.ready = R \cup {q \in Q : ~Empty(q) /\ ~InDisp(q)}]>> \o Over(stack)
  /\ UNCHANGED <<st, refs, items, ph, nd>>

--------------------------------------------------------------------------
(* What the library does next. Silent steps first. *)
\* the loop reaches a queue
Serve(q) ==
  /\ stack # <<>> /\ Top.k = "iter" /\ q \in Top.ready
  /\ stack' = <<Fr("disp", q, 0)>> \o <<[Top EXCEPT !.ready = @ \ {q}, !.any = TRUE]>> \o Tail(stack)
  /\ items' = [items EXCEPT ![q] = Marked(@)]
  /\ UNCHANGED <<st, refs, ph, nd>>
Served ==
  /\ stack # <<>> /\ Top.k = "disp" /\ ~FirstMarked(Top.q)
  /\ stack' = Tail(stack)
  /\ UNCHANGED <<st, refs, items, ph, nd>>
\* a call without a run function
NoRun ==
  /\ stack # <<>> /\ Top.k = "disp" /\ FirstMarked(Top.q)
  /\ LET it == Head(items[Top.q]) IN
     /\ ~it.run
     /\ items' = [items EXCEPT ![Top.q] = Tail(@)]
     /\ ph' = [ph EXCEPT ![it.x] = "run"]
     /\ stack' = (IF it.d THEN <<[Fr("todo", Top.q, 0) EXCEPT !.x = it.x, !.d = TRUE]>> ELSE <<>>) \o stack
  /\ UNCHANGED <<st, refs, nd>>
\* the next call is withdrawn
Withdraw ==
  /\ stack # <<>> /\ Top.k = "canc" /\ FirstMarked(Top.q)
  /\ LET it == Head(items[Top.q]) IN
     /\ items' = [items EXCEPT ![Top.q] = Tail(@)]
     /\ ph' = [ph EXCEPT ![it.x] = "withdrawn"]
     /\ stack' = (IF it.d THEN <<[Fr("todo", Top.q, 0) EXCEPT !.x = it.x, !.d = TRUE]>> ELSE <<>>) \o stack
  /\ UNCHANGED <<st, refs, nd>>
\* nothing more to withdraw
Settle(q, s) == IF Empty(q) THEN Unready(q, s) ELSE s
Withdrawn ==
  /\ stack # <<>> /\ Top.k = "canc" /\ ~FirstMarked(Top.q)
  /\ IF Top.free
     THEN Dropped(Top.q, Settle(Top.q, Tail(stack)))
     ELSE /\ stack' = <<Fr("plain", 0, Top.r)>> \o Settle(Top.q, Tail(stack))
          /\ UNCHANGED <<st, refs, items>>
  /\ UNCHANGED <<ph, nd>>
OneDone ==
  /\ stack # <<>> /\ Top.k = "one"
  /\ stack' = <<Fr("plain", 0, Top.r)>> \o Settle(Top.q, Tail(stack))
  /\ UNCHANGED <<st, refs, items, ph, nd>>
Silent == (\E q \in Q : Serve(q)) \/ Served \/ NoRun \/ Withdraw \/ Withdrawn \/ OneDone

(* Visible steps *)
RunItem == Head(items[Top.q])
RunCb ==
  /\ stack # <<>> /\ Top.k = "disp" /\ FirstMarked(Top.q)
  /\ RunItem.run
  /\ items' = [items EXCEPT ![Top.q] = Tail(@)]
  /\ ph' = [ph EXCEPT ![RunItem.x] = "run"]
  /\ Push([Fr("cb", Top.q, 0) EXCEPT !.x = RunItem.x, !.d = RunItem.d, !.what = "run"])
  /\ UNCHANGED <<st, refs, nd>>
DestroyCb ==
  /\ stack # <<>> /\ Top.k = "todo"
  /\ nd' = [nd EXCEPT ![Top.x] = @ + 1]
  /\ stack' = <<[Top EXCEPT !.k = "cb", !.d = FALSE, !.what = "destroy"]>> \o Tail(stack)
  /\ UNCHANGED <<st, refs, items, ph>>
CbReturn ==
  /\ stack # <<>> /\ Top.k = "cb"
  /\ stack' = (IF Top.d THEN <<[Top EXCEPT !.k = "todo"]>> ELSE <<>>) \o Tail(stack)
  /\ UNCHANGED <<st, refs, items, ph, nd>>
Return ==
  /\ stack # <<>>
  /\ \/ Top.k = "plain"
     \/ Top.k = "iter" /\ Top.ready = {}
  /\ stack' = Tail(stack)
  /\ UNCHANGED <<st, refs, items, ph, nd>>
RetVal == IF Top.k = "iter" THEN (IF Top.any THEN 1 ELSE 0) ELSE Top.r

--------------------------------------------------------------------------
(* Guarantees *)
TypeOK == \A q \in Q : /\ st[q] \in {"none", "live", "dead"} /\ refs[q] >= 0
                       /\ (st[q] = "live") <=> refs[q] > 0
Waiting(x) == \E q \in Q : \E i \in 1..Len(items[q]) : items[q][i].x = x
\* only waiting calls are in a queue, and only in one place
Place == \A x \in DOMAIN ph : (ph[x] = "waiting") <=> Waiting(x)
DestroyAtMostOnce == \A x \in DOMAIN nd : nd[x] <= 1
NotBeforeItsTime == \A x \in DOMAIN nd : ph[x] = "waiting" => nd[x] = 0
\* oldest first
InOrder == \A q \in Q : \A i, j \in 1..Len(items[q]) : i < j => items[q][i].x < items[q][j].x
\* A queue without references has nothing left to run once the call that
\* dropped the last one is over
Quiet == \A q \in Q : st[q] = "dead" /\ ~(\E i \in 1..Len(stack) : stack[i].k = "canc" /\ stack[i].q = q) => Empty(q)
=============================================================================
