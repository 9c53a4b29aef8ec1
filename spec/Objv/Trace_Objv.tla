---------------------------- MODULE Trace_Objv ----------------------------
EXTENDS Objv, TraceBase
VARIABLE l
Init == OInit /\ l = 1
Ev == Tr[l]
S == vec[Ev.v]
Obs == /\ \A k \in 1..Len(Ev.vec) : LET v == Ev.vec[k].v IN Ev.vec[k].there = (v \in there') /\ Ev.vec[k].c = vec'[v]
       \* finalized just now, each of them once
       /\ Len(Ev.fin) = Cardinality(Dying) /\ Elems(Ev.fin) = Dying
       /\ \A k \in 1..Len(Ev.refs) : Ev.refs[k].r = RefCount(Ev.refs[k].o, vec', own')
At(k) == IF k < Len(S) THEN S[k + 1] ELSE 0
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "obj" -> NewObj(Ev.x)
       [] Ev.op = "objdrop" -> DropObj(Ev.x)
       [] Ev.op = "new" -> New(Ev.v, Ev.s)
       [] Ev.op = "free" -> Free(Ev.v)
       [] Ev.op = "copy" -> Copy(Ev.v, Ev.w)
       [] Ev.op = "add" -> Add(Ev.v, Ev.x)
       [] Ev.op = "insert" -> Insert(Ev.v, Ev.x, Ev.p)
       [] Ev.op = "append" -> AppendAll(Ev.v, Ev.w)
       [] Ev.op = "removeat" -> RemoveAt(Ev.v, Ev.p)
       [] Ev.op = "remove" -> Remove(Ev.v, Ev.x, Ev.all)
       [] Ev.op = "look" -> /\ Same
                            /\ \A i \in 1..Len(Ev.at) : Ev.at[i].r = At(Ev.at[i].p)
                            /\ Ev.first = (IF S = <<>> THEN 0 ELSE S[1]) /\ Ev.last = (IF S = <<>> THEN 0 ELSE S[Len(S)])
                            /\ \A i \in 1..Len(Ev.find) : LET f == Ev.find[i] IN
                                 f.first = IndexOf(S, f.x) /\ f.last = LastIndexOf(S, f.x) /\ f.has = Has(S, f.x)
       [] Ev.op = "equal" -> Same /\ Ev.r = (vec[Ev.v] = vec[Ev.w])
       [] Ev.op = "null" -> Same /\ Ev.r
  /\ Obs
Step ==
  \/ Ev.e = "scn" /\ there' = {} /\ vec' = [v \in V |-> <<>>] /\ own' = [o \in O |-> 0] /\ born' = {}
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ there = {} /\ (\A o \in O : ~Alive(o)) /\ UNCHANGED ovars
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
