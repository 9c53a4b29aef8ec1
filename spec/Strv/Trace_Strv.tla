---------------------------- MODULE Trace_Strv ----------------------------
EXTENDS Strv, TraceBase
VARIABLE l
Init == VInit /\ l = 1
Ev == Tr[l]
S == vec[Ev.v]
Obs == /\ Ev.there = (Ev.v \in there')
       /\ Ev.c = vec'[Ev.v]
At(k) == IF k < Len(S) THEN <<S[k + 1]>> ELSE <<>>
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "new" -> New(Ev.v, Ev.s)
       [] Ev.op = "drop" -> Drop(Ev.v)
       [] Ev.op = "add" -> Add(Ev.v, Ev.s)
       \* a string which is not freed is left to the caller
       [] Ev.op = "removeat" -> RemoveAt(Ev.v, Ev.p)
       [] Ev.op = "remove" -> IF Ev.all THEN RemoveAll(Ev.v, Ev.s) ELSE RemoveOne(Ev.v, Ev.s)
       [] Ev.op = "dups" -> RemoveDups(Ev.v)
       [] Ev.op = "strip" -> StripAll(Ev.v)
       [] Ev.op = "sort" -> Sort(Ev.v, Ev.asc, Ev.c)
       [] Ev.op = "find" -> /\ Look
                            /\ Ev.first = IndexOf(S, Ev.s) /\ Ev.last = LastIndexOf(S, Ev.s) /\ Ev.has = Has(S, Ev.s)
       [] Ev.op = "look" -> /\ Look
                            /\ Ev.len = Len(S)
                            /\ \A i \in 1..Len(Ev.at) : Ev.at[i].r = At(Ev.at[i].p)
                            /\ Ev.end = (IF S = <<>> THEN <<>> ELSE <<S[Len(S)]>>)
       [] Ev.op = "nofind" -> Look /\ Ev.r
       [] Ev.op = "equal" -> Look /\ Ev.r = Same(Ev.v, Ev.w)
       [] Ev.op = "equalview" -> Look /\ Ev.r = Ev.r2 /\ Ev.r = (SubSeq(S, Ev.from + 1, Ev.from + Ev.k) = S)
       [] Ev.op = "bsearch" -> Look /\ BSearchOk(Ev.v, Ev.s, Ev.r)
  /\ Obs
Step ==
  \/ Ev.e = "scn" /\ there' = {} /\ vec' = [v \in V |-> <<>>]
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ there = {} /\ UNCHANGED vvars
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
