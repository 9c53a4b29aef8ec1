------------------------------ MODULE IdlePool ------------------------------
(* Idle pools: what they hold, when it is released, how long they live, and  *)
(* in which main loop they are scheduled. There are two main contexts, 1 is  *)
(* the default one and 2 may be the thread-default one. Context 2 may be     *)
(* destroyed (and replaced with a new one). That's the end of everything     *)
(* that has been scheduled there, even though the pools don't know that.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS P,     \* pools
          Main,  \* the main thread's own default pool (in P)
          S      \* variables holding shared pools

VARIABLES
  pst,     \* pool -> "none", "live", "dead"
  cref,    \* pool -> references held by the client
  held,    \* pool -> things waiting to be released, oldest first
  sched,   \* pool -> context in which an idle callback is pending, or 0;
           \* 3 if that context has been destroyed, 4 is the worker's own one
  var,     \* shared variable -> pool or 0
  psh,     \* pool -> its shared variable or 0
  thr,     \* default pools of other threads
  wk,      \* the worker thread: its default pool p (or 0), has it a context of
           \* its own, is it running (or else the main thread is)
  cur,     \* current thread-default context
  kept,    \* things to which the client still has a reference of its own
  rel,     \* things released by a pool so far
  stack

ipvars == <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel, stack>>

\* x = 0 is the reference which a shared pool holds to itself
It(x, vis) == [x |-> x, vis |-> vis]
SelfItem == It(0, FALSE)
Fr(k, p) == [k |-> k, p |-> p, batch |-> <<>>, ready |-> {}, any |-> FALSE, x |-> 0, hold |-> FALSE, after |-> "", c |-> 0]
Top == Head(stack)
NoWorker == [p |-> 0, own |-> FALSE, run |-> FALSE]
Client == ~wk.run /\ (IF stack = <<>> THEN TRUE ELSE Top.k = "cb")
Push(f) == stack' = <<f>> \o stack

SelfCount(s) == Cardinality({i \in 1..Len(s) : s[i].x = 0})
Frames(Pr(_)) == Cardinality({i \in 1..Len(stack) : Pr(stack[i])})
InBatch(p) == Frames(LAMBDA f : f.k = "drain" /\ f.p = p /\ SelfCount(f.batch) > 0)
Refs(p) == cref[p] + (IF sched[p] \in {1, 2, 4} THEN 1 ELSE 0) + SelfCount(held[p]) + InBatch(p)
           + Frames(LAMBDA f : f.k = "disp" /\ f.p = p)
           + Frames(LAMBDA f : f.k = "drain" /\ f.p = p /\ f.hold)
\* every pool nobody refers to any more is gone before anything else happens
Doomed(p) == pst[p] = "live" /\ Refs(p) = 0
Settled == \A p \in P : ~Doomed(p)
Unready(p, s) == [i \in 1..Len(s) |-> IF s[i].k \in {"iter", "gone"} THEN [s[i] EXCEPT !.ready = @ \ {p}] ELSE s[i]]

IPInit ==
  /\ pst = [p \in P |-> IF p = Main THEN "live" ELSE "none"]
  /\ cref = [p \in P |-> IF p = Main THEN 1 ELSE 0]
  /\ held = [p \in P |-> <<>>] /\ sched = [p \in P |-> 0]
  /\ var = [s \in S |-> 0] /\ psh = [p \in P |-> 0] /\ thr = {} /\ wk = NoWorker /\ cur = 1
  /\ kept = {} /\ rel = {} /\ stack = <<>>

--------------------------------------------------------------------------
(* The client *)
\* the client knows of the pool: through a reference or a shared variable
Known(p) == /\ pst[p] = "live" /\ p \notin thr
            /\ IF cref[p] > 0 THEN TRUE ELSE IF psh[p] # 0 THEN var[psh[p]] = p ELSE FALSE
Look == Client /\ UNCHANGED ipvars
NewPool(p) ==
  /\ Client /\ pst[p] = "none"
  /\ pst' = [pst EXCEPT ![p] = "live"] /\ cref' = [cref EXCEPT ![p] = 1]
  /\ UNCHANGED <<held, sched, var, psh, thr, wk, cur, kept, rel, stack>>
\* p is what gets returned
Get(s, p) ==
  /\ Client
  /\ IF var[s] # 0
     THEN p = var[s] /\ UNCHANGED ipvars
     ELSE /\ pst[p] = "none"
          /\ pst' = [pst EXCEPT ![p] = "live"]
          /\ held' = [held EXCEPT ![p] = <<SelfItem>>]
          /\ sched' = [sched EXCEPT ![p] = cur]
          /\ psh' = [psh EXCEPT ![p] = s] /\ var' = [var EXCEPT ![s] = p]
          /\ UNCHANGED <<cref, thr, wk, cur, kept, rel, stack>>
Destroying(p) == Frames(LAMBDA f : f.p = p /\ f.after = "unref")
Ref(p) == /\ Client /\ Known(p) /\ p # Main /\ cref' = [cref EXCEPT ![p] = @ + 1]
          /\ UNCHANGED <<pst, held, sched, var, psh, thr, wk, cur, kept, rel, stack>>
Unref(p) == /\ Client /\ Known(p) /\ p # Main /\ cref[p] - Destroying(p) > 0
            /\ cref' = [cref EXCEPT ![p] = @ - 1]
            /\ Push(Fr("plain", p))
            /\ UNCHANGED <<pst, held, sched, var, psh, thr, wk, cur, kept, rel>>
Add(p, x, vis, keep) ==
  /\ Client /\ Known(p) /\ x > 0
  /\ held' = [held EXCEPT ![p] = Append(@, It(x, vis))]
  /\ sched' = [sched EXCEPT ![p] = IF @ = 0 THEN cur ELSE @]
  /\ kept' = IF keep THEN kept \cup {x} ELSE kept
  /\ UNCHANGED <<pst, cref, var, psh, thr, wk, cur, rel, stack>>
Drain(p) == /\ Client /\ Known(p)
            /\ Push([Fr("drain", p) EXCEPT !.hold = TRUE, !.after = "ret"])
            /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel>>
Destroy(p) == /\ Client /\ Known(p) /\ p # Main /\ cref[p] - Destroying(p) > 0
              /\ Push([Fr("drain", p) EXCEPT !.after = "unref"])
              /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel>>
\* the client's own reference to something it has added goes away
DropKept(x) ==
  /\ Client /\ x \in kept /\ kept' = kept \ {x}
  /\ stack' = (IF x \in rel THEN <<[Fr("todo", 0) EXCEPT !.x = x]>> ELSE <<>>) \o <<Fr("plain", 0)>> \o stack
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, rel>>
SwitchContext ==
  /\ Client /\ stack = <<>> /\ cur' = 3 - cur
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, kept, rel, stack>>
\* A release function may run the loop too. The one in progress (in the same
\* context) has nothing more to serve after that.
Over(c, s) == [i \in 1..Len(s) |-> IF s[i].k = "iter" /\ s[i].c = c THEN [s[i] EXCEPT !.ready = {}] ELSE s[i]]
Iterate(c) ==
  /\ Client /\ \A i \in 1..Len(stack) : stack[i].k # "gone"
  /\ stack' = <<[Fr("iter", 0) EXCEPT !.c = c, !.ready = {p \in P : pst[p] = "live" /\ sched[p] = c}]>> \o Over(c, stack)
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel>>
\* context 2 is destroyed
DestroyContext ==
  /\ Client /\ stack = <<>> /\ cur = 1
  /\ Push([Fr("gone", 0) EXCEPT !.ready = {p \in P : pst[p] = "live" /\ sched[p] = 2}])
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel>>
\* A thread uses its own default pool p to release xs, and terminates. It has
\* no main loop, so unless it drains the pool the main one has to do it.
Thread(p, xs, drain) ==
  /\ Client /\ stack = <<>> /\ pst[p] = "none"
  /\ pst' = [pst EXCEPT ![p] = "live"]
  /\ thr' = thr \cup {p}
  /\ cref' = [cref EXCEPT ![p] = IF drain THEN 1 ELSE 0]
  /\ held' = [held EXCEPT ![p] = [i \in 1..Len(xs) |-> It(xs[i], TRUE)]]
  /\ sched' = [sched EXCEPT ![p] = IF xs = <<>> THEN 0 ELSE 1]
  /\ stack' = (IF drain THEN <<[Fr("drain", p) EXCEPT !.after = "unref"]>>
               ELSE <<Fr("plain", p)>>) \o stack
  /\ UNCHANGED <<var, psh, wk, cur, kept, rel>>


(* A thread which lives longer. It may have a context of its own, and even if *)
(* it hasn't, what it adds to its default pool is released by the thread (or  *)
(* when the thread is gone), although it's the main loop which gets the idle  *)
(* callback.                                                                  *)
Worker == wk.p # 0 /\ (IF stack = <<>> THEN ~wk.run ELSE wk.run /\ Top.k = "cb")
WStart(p, own) ==
  /\ Client /\ stack = <<>> /\ wk.p = 0 /\ pst[p] = "none"
  /\ pst' = [pst EXCEPT ![p] = "live"] /\ cref' = [cref EXCEPT ![p] = 1]
  /\ thr' = thr \cup {p} /\ wk' = [p |-> p, own |-> own, run |-> FALSE]
  /\ UNCHANGED <<held, sched, var, psh, cur, kept, rel, stack>>
WAdd(xs) ==
  /\ Worker
  /\ held' = [held EXCEPT ![wk.p] = @ \o [i \in 1..Len(xs) |-> It(xs[i], TRUE)]]
  /\ sched' = [sched EXCEPT ![wk.p] = IF @ = 0 THEN (IF wk.own THEN 4 ELSE 1) ELSE @]
  /\ UNCHANGED <<pst, cref, var, psh, thr, wk, cur, kept, rel, stack>>
WDrain ==
  /\ Worker
  /\ Push([Fr("drain", wk.p) EXCEPT !.hold = TRUE, !.after = "ret"])
  /\ wk' = [wk EXCEPT !.run = TRUE]
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, cur, kept, rel>>
WIterate ==
  /\ Worker /\ stack = <<>> /\ wk.own
  /\ Push([Fr("iter", 0) EXCEPT !.c = 4, !.ready = {p \in P : pst[p] = "live" /\ sched[p] = 4}])
  /\ wk' = [wk EXCEPT !.run = TRUE]
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, cur, kept, rel>>
\* its own context goes first
WExit ==
  /\ Worker /\ stack = <<>>
  /\ cref' = [cref EXCEPT ![wk.p] = @ - 1]
  /\ sched' = [sched EXCEPT ![wk.p] = IF @ = 4 THEN 3 ELSE @]
  /\ Push(Fr("plain", 0))
  /\ wk' = [wk EXCEPT !.p = 0, !.run = TRUE]
  /\ UNCHANGED <<pst, held, var, psh, thr, cur, kept, rel>>

--------------------------------------------------------------------------
(* The library *)
Draining == stack # <<>> /\ Top.k = "drain"
NextBatch ==
  /\ Draining /\ Top.batch = <<>> /\ held[Top.p] # <<>>
  /\ stack' = [stack EXCEPT ![1].batch = held[Top.p]]
  /\ held' = [held EXCEPT ![Top.p] = <<>>]
  /\ UNCHANGED <<pst, cref, sched, var, psh, thr, wk, cur, kept, rel>>
\* releases the client does not notice
Quiet(it) == ~it.vis \/ it.x \in kept
RelQuiet ==
  /\ Draining /\ Top.batch # <<>> /\ Quiet(Head(Top.batch))
  /\ stack' = [stack EXCEPT ![1].batch = Tail(@)]
  /\ rel' = IF Head(Top.batch).x = 0 THEN rel ELSE rel \cup {Head(Top.batch).x}
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept>>
DrainDone ==
  /\ Draining /\ Top.batch = <<>> /\ held[Top.p] = <<>>
  /\ sched' = [sched EXCEPT ![Top.p] = 0]
  /\ cref' = IF Top.after = "unref" THEN [cref EXCEPT ![Top.p] = @ - 1] ELSE cref
  /\ stack' = (IF Top.after \in {"unref", "ret"} THEN <<Fr("plain", 0)>> ELSE <<>>)
              \o Unready(Top.p, Tail(stack))
  /\ UNCHANGED <<pst, held, var, psh, thr, wk, cur, kept, rel>>
Serve(p) ==
  /\ stack # <<>> /\ Top.k = "iter" /\ p \in Top.ready
  /\ sched' = [sched EXCEPT ![p] = 0]
  /\ stack' = (IF p \in thr /\ Top.c # 4 THEN <<>> ELSE <<[Fr("drain", p) EXCEPT !.hold = TRUE]>>)
              \o <<Fr("disp", p), [Top EXCEPT !.ready = @ \ {p}, !.any = TRUE]>> \o Tail(stack)
  /\ UNCHANGED <<pst, cref, held, var, psh, thr, wk, cur, kept, rel>>
Expire(p) ==
  /\ stack # <<>> /\ Top.k = "gone" /\ p \in Top.ready
  /\ sched' = [sched EXCEPT ![p] = 3]
  /\ stack' = <<[Top EXCEPT !.ready = @ \ {p}]>> \o Tail(stack)
  /\ UNCHANGED <<pst, cref, held, var, psh, thr, wk, cur, kept, rel>>
Served ==
  /\ stack # <<>> /\ Top.k = "disp"
  /\ stack' = Tail(stack)
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel>>
\* the last reference is gone
Die(p) ==
  /\ Doomed(p)
  /\ pst' = [pst EXCEPT ![p] = "dead"]
  /\ var' = IF psh[p] # 0 THEN [var EXCEPT ![psh[p]] = 0] ELSE var
  /\ stack' = (IF held[p] # <<>> THEN <<Fr("drain", p)>> ELSE <<>>) \o stack
  /\ UNCHANGED <<cref, held, sched, psh, thr, wk, cur, kept, rel>>
Silent ==
  \/ \E p \in P : Die(p)
  \/ Settled /\ (NextBatch \/ RelQuiet \/ DrainDone \/ Served \/ \E p \in P : Serve(p) \/ Expire(p))

\* A release function (or finalizer) is called
RelX == IF Top.k = "todo" THEN Top.x ELSE Head(Top.batch).x
RelCb ==
  /\ Settled /\ stack # <<>>
  /\ IF Top.k = "todo"
     THEN stack' = <<[Top EXCEPT !.k = "cb"]>> \o Tail(stack)
     ELSE /\ Draining /\ Top.batch # <<>> /\ ~Quiet(Head(Top.batch))
          /\ stack' = <<[Fr("cb", 0) EXCEPT !.x = Head(Top.batch).x], [Top EXCEPT !.batch = Tail(@)]>> \o Tail(stack)
  /\ rel' = rel \cup {RelX}
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept>>
CbReturn ==
  /\ Settled /\ stack # <<>> /\ Top.k = "cb" /\ stack' = Tail(stack)
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, wk, cur, kept, rel>>
RetVal == IF Top.k = "iter" THEN (IF Top.any THEN 1 ELSE 0) ELSE 0
Return ==
  /\ Settled /\ stack # <<>>
  /\ IF Top.k = "plain" THEN TRUE ELSE Top.k \in {"iter", "gone"} /\ Top.ready = {}
  /\ stack' = Tail(stack)
  /\ wk' = IF Tail(stack) = <<>> THEN [wk EXCEPT !.run = FALSE] ELSE wk
  /\ UNCHANGED <<pst, cref, held, sched, var, psh, thr, cur, kept, rel>>

--------------------------------------------------------------------------
(* Guarantees *)
Range(s) == {s[i] : i \in 1..Len(s)}
InsideOf(x, h, s) == (\E p \in P : \E it \in Range(h[p]) : it.x = x)
                     \/ \E i \in 1..Len(s) : \E it \in Range(s[i].batch) : it.x = x
Inside(x) == InsideOf(x, held, stack)
\* nothing is released twice or while still held
Once == \A x \in rel : ~Inside(x)
\* whatever is held will be released: somebody is scheduled to do it
NeverForgotten == (stack = <<>> /\ Settled) => \A p \in P : held[p] # <<>> => pst[p] = "live" /\ (sched[p] # 0 \/ p = wk.p)
\* a shared variable never refers to a pool that is gone
NoDangling == \A s \in S : var[s] # 0 => pst[var[s]] = "live" /\ psh[var[s]] = s
DeadIsIdle == \A p \in P : pst[p] = "dead" => sched[p] \in {0, 3}
\* an emptied and unreferenced shared pool disappears
NoImmortals == (stack = <<>> /\ Settled) => \A p \in P : pst[p] = "live" /\ cref[p] = 0 => held[p] # <<>>
=============================================================================
