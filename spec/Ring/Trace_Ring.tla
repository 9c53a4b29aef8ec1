----------------------------- MODULE Trace_Ring -----------------------------
EXTENDS Ring, TraceBase
VARIABLE l
vars == <<st, items, max, ff, refs, stack, gone, taken, l>>
CONSTANT Unique    \* does the script put distinct elements

Init == RingInit /\ l = 1
Ev == Tr[l]

Obs == IF st' = "live"
       THEN /\ Ev.live /\ Ev.n = Len(items') /\ Ev.max = max' /\ (IF "c" \in DOMAIN Ev THEN Ev.c = items' ELSE TRUE)
            /\ Ev.oor = FALSE
            /\ Ev.can1 = (max' < 0 \/ Len(items') < max')
       ELSE ~Ev.live

Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "put" -> Ev.r = PutRet /\ Put(Ev.a)
       [] Ev.op = "putf" -> Ev.r = PutRet /\ PutFront(Ev.a)
       [] Ev.op = "putn" -> Ev.r = PutManyRet(Ev.k) /\ PutMany(Ev.a, Ev.k)
       [] Ev.op = "getn" -> GetMany(Ev.a, Ev.g)
       [] Ev.op = "getln" -> GetLastMany(Ev.a, Ev.g)
       [] Ev.op = "get" -> Ev.r = GetRet /\ Get
       [] Ev.op = "getl" -> Ev.r = GetLastRet /\ GetLast
       [] Ev.op = "compact" -> Same
       [] Ev.op = "reserve" -> Ev.r = ReserveRet(Ev.a) /\ Same
       [] Ev.op = "canput" -> Ev.r = CanPutRet(Ev.a) /\ Same
       [] Ev.op = "ref" -> Ev.r = 1 /\ Ref
       [] Ev.op = "setfree" -> SetFree(Ev.a = 1)
       [] Ev.op = "flat" -> /\ Ev.r = Size /\ Ev.f = items /\ Ev.null = (items = <<>>)
                            /\ Same
  /\ Obs
Call ==
  /\ Ev.e = "call"
  /\ CASE Ev.op = "drop" -> Drop(Ev.a)
       [] Ev.op = "dropl" -> DropLast(Ev.a)
       [] Ev.op = "clear" -> Clear
       [] Ev.op = "setmax" -> SetMax(Ev.a)
       [] Ev.op = "unref" -> Unref
Step ==
  \/ Ev.e = "scn" /\ st' = "none" /\ items' = <<>> /\ max' = -1 /\ ff' = FALSE /\ refs' = 0
                  /\ stack' = <<>> /\ gone' = {} /\ taken' = {}
  \/ Ev.e = "new" /\ New(Ev.max, Ev.ff) /\ Obs
  \/ Op
  \/ Call
  \/ Ev.e = "cb" /\ CbEnter /\ Ev.x = CbElem /\ Obs
  \/ Ev.e = "cbret" /\ CbReturn
  \/ Ev.e = "ret" /\ Return /\ Ev.r = CallRet /\ Obs
  \/ Ev.e = "null" /\ Ev.ok /\ UNCHANGED ringvars
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ st = "none" /\ stack = <<>> /\ UNCHANGED ringvars
Next == l <= Len(Tr) /\ Step /\ l' = l + 1

Progress == Reached(l)
Owned == Unique => FreedOnce
=============================================================================
