--------------------------- MODULE Trace_IdlePool ---------------------------
EXTENDS IdlePool, TraceBase
VARIABLE l
Init == IPInit /\ l = 1
Ev == Tr[l]

\* What the client sees when it has control
Obs == /\ Ev.foreign  \* other people's event sources are still there
       /\ \A s \in S : Ev.var[s] = var'[s]
       /\ \A i \in 1..Len(Ev.kept) : Ev.kept[i].r = (IF InsideOf(Ev.kept[i].x, held', stack') THEN 2 ELSE 1)
Atomic ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "new" -> NewPool(Ev.p)
       [] Ev.op = "get" -> Get(Ev.s, Ev.p)
       [] Ev.op = "add" -> Settled /\ Add(Ev.p, Ev.x, Ev.vis, Ev.keep) /\ Ev.r
       [] Ev.op = "ref" -> Settled /\ Ref(Ev.p) /\ Ev.r
       [] Ev.op = "ctx" -> SwitchContext
       [] Ev.op = "wstart" -> Settled /\ WStart(Ev.p, Ev.own)
       [] Ev.op = "wadd" -> Settled /\ WAdd(Ev.xs) /\ Ev.r
       [] Ev.op = "pending" -> Look /\ Settled /\ stack = <<>> /\ Ev.r = (\E p \in P : sched[p] = Ev.c)
       [] Ev.op = "null" -> Look /\ Ev.r
       [] Ev.op = "default" -> Look /\ Ev.r
  /\ Obs
Call ==
  /\ Ev.e = "call" /\ Settled
  /\ CASE Ev.op = "unref" -> Unref(Ev.p)
       [] Ev.op = "drain" -> Drain(Ev.p)
       [] Ev.op = "destroy" -> Destroy(Ev.p)
       [] Ev.op = "iter" -> Iterate(Ev.c)
       [] Ev.op = "ctxgone" -> DestroyContext
       [] Ev.op = "dropkept" -> DropKept(Ev.x)
       [] Ev.op = "wdrain" -> WDrain
       [] Ev.op = "witer" -> WIterate
       [] Ev.op = "wexit" -> WExit
       [] Ev.op = "thr" -> Thread(Ev.p, Ev.xs, Ev.d)
Step ==
  \/ /\ Ev.e = "scn"
     /\ pst' = [p \in P |-> IF p = Main THEN "live" ELSE "none"]
     /\ cref' = [p \in P |-> IF p = Main THEN 1 ELSE 0]
     /\ held' = [p \in P |-> <<>>] /\ sched' = [p \in P |-> 0]
     /\ var' = [s \in S |-> 0] /\ psh' = [p \in P |-> 0] /\ thr' = {} /\ wk' = NoWorker /\ cur' = 1
     /\ kept' = {} /\ rel' = {} /\ stack' = <<>>
  \/ Atomic
  \/ Call
  \/ Ev.e = "rel" /\ RelCb /\ RelX = Ev.x /\ Obs
  \/ Ev.e = "cbret" /\ CbReturn
  \/ Ev.e = "ret" /\ Return /\ Ev.r = RetVal /\ Obs
  \/ Ev.e = "end" /\ wk.p = 0 /\ Ev.leak = 0 /\ ~Ev.pending /\ stack = <<>> /\ Settled
     /\ (\A p \in P \ {Main} : pst[p] # "live") /\ held[Main] = <<>> /\ UNCHANGED ipvars
Next ==
  \/ l <= Len(Tr) /\ Step /\ l' = l + 1
  \/ Silent /\ l' = l
Progress == Reached(l)
=============================================================================
