--------------------------- MODULE Trace_IntArray ---------------------------
EXTENDS IntArray, TraceBase
VARIABLE l
Init == AInit /\ l = 1
Ev == Tr[l]
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "new" -> New(Ev.v)
       [] Ev.op = "append" -> Append_(Ev.v)
       [] Ev.op = "prepend" -> Prepend(Ev.v)
       [] Ev.op = "insert" -> Insert(Ev.p, Ev.v, Ev.c)
       [] Ev.op = "count" -> SetCount(Ev.n, Ev.c)
       [] Ev.op = "remove" -> Remove(Ev.x) /\ Ev.r = (IF Has(arr, Ev.x) THEN 1 ELSE 0)
       [] Ev.op = "removef" -> RemoveFast(Ev.x) /\ Ev.r = (IF Has(arr, Ev.x) THEN 1 ELSE 0)
       [] Ev.op = "removeall" -> RemoveAll(Ev.x) /\ Ev.r = CountOf(arr, Ev.x)
       [] Ev.op = "removeallf" -> RemoveAllFast(Ev.x) /\ Ev.r = CountOf(arr, Ev.x)
       [] Ev.op = "removei" -> RemoveIndex(Ev.p)
       [] Ev.op = "removeif" -> RemoveIndexFast(Ev.p)
       [] Ev.op = "range" -> RemoveRange(Ev.p, Ev.n)
       [] Ev.op = "sort" -> Sort(Ev.asc, Ev.c)
       [] Ev.op = "ref" -> Ref
       [] Ev.op = "unref" -> Unref
       \* what has been handed over is right
       [] Ev.op = "free" -> Free /\ (IF Ev.k = 0 THEN Ev.out = <<>> ELSE Ev.out = arr)
       [] Ev.op = "find" -> Look /\ Ev.r = IndexOf(arr, Ev.x) /\ Ev.has = Has(arr, Ev.x)
       [] Ev.op = "null" -> Look
  /\ Ev.ok  \* the array is returned where it has to be
  /\ Ev.c = arr'
Step ==
  \/ Ev.e = "scn" /\ arr' = <<>> /\ refs' = 0
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ refs = 0 /\ UNCHANGED avars
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
