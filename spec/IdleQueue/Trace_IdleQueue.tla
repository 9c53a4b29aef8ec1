-------------------------- MODULE Trace_IdleQueue --------------------------
EXTENDS IdleQueue, TraceBase
VARIABLE l
Init == IQInit /\ l = 1
Ev == Tr[l]
TagRange == 0..3

\* What the client sees when it has control: which tags are waiting in which queue
Obs == /\ \A i \in 1..Len(Ev.o) :
            LET q == Ev.o[i].q IN
            st'[q] = "live" =>
              \A t \in TagRange : Ev.o[i].t[t + 1] = (\E j \in 1..Len(items'[q]) : items'[q][j].tag = t)
Atomic ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "new" -> NewQ(Ev.q)
       [] Ev.op = "add" -> Add(Ev.q, Ev.x, Ev.tag, Ev.run, Ev.d)
       [] Ev.op = "contains" -> Look /\ Ev.r = (IF Ev.q \in Q THEN ContainsRet(Ev.q, Ev.tag) ELSE FALSE)
       [] Ev.op = "ref" -> Ref(Ev.q) /\ Ev.r
       [] Ev.op = "pending" -> Look /\ stack = <<>> /\ Ev.r = (\E q \in Q : ~Empty(q))
       [] Ev.op = "null" -> Look /\ Ev.r
       [] Ev.op = "otherloop" -> Look /\ Ev.r
  /\ Obs
Call ==
  /\ Ev.e = "call"
  /\ CASE Ev.op = "addnone" -> AddNone(Ev.x, Ev.d)
       [] Ev.op = "cancel" -> CancelTag(Ev.q, Ev.tag)
       [] Ev.op = "cancelall" -> CancelAll(Ev.q)
       [] Ev.op = "unref" -> Unref(Ev.q)
       [] Ev.op = "free" -> Free(Ev.q)
       [] Ev.op = "iter" -> Iterate
Step ==
  \/ Ev.e = "scn" /\ st' = [q \in Q |-> "none"] /\ refs' = [q \in Q |-> 0] /\ items' = [q \in Q |-> <<>>]
                  /\ stack' = <<>> /\ ph' = <<>> /\ nd' = <<>>
  \/ Atomic
  \/ Call
  \/ Ev.e = "run" /\ RunCb /\ RunItem.x = Ev.x /\ Obs
  \/ Ev.e = "destroy" /\ DestroyCb /\ Top.x = Ev.x /\ Obs
  \/ Ev.e = "cbret" /\ CbReturn
  \/ Ev.e = "ret" /\ Return /\ Ev.r = RetVal /\ Obs
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ ~Ev.pending /\ stack = <<>> /\ (\A q \in Q : st[q] # "live") /\ UNCHANGED iqvars
Next ==
  \/ l <= Len(Tr) /\ Step /\ l' = l + 1
  \/ Silent /\ l' = l
Progress == Reached(l)
=============================================================================
