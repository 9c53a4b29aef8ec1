----------------------------- MODULE Trace_Ints -----------------------------
EXTENDS Ints, TraceBase
VARIABLE l
Init == IInit /\ l = 1
Ev == Tr[l]
\* All arrays the client has look the same
Obs == \A k \in 1..Len(Ev.o) : Ev.o[k].i \in Known' /\ Ev.o[k].c = data'[Ev.o[k].i]
Rel(s) == Len(Ev.rel) = Cardinality(s) /\ Elems(Ev.rel) = s
NoRel == Ev.rel = <<>>

\* Equality, hash and order of arrays s[1], s[2], ... (absent ones being empty)
Laws(s, eq, cmp, hash) ==
  \A a, b \in 1..Len(s) :
    /\ eq[a][b] = (s[a] = s[b])
    /\ (cmp[a][b] = 0) = (s[a] = s[b])
    /\ cmp[a][b] = -cmp[b][a]
    /\ s[a] = s[b] => hash[a] = hash[b]
    /\ (Len(s[a]) < Len(s[b]) /\ Prefix(s[b], Len(s[a])) = s[a]) => cmp[a][b] < 0
    /\ \A c \in 1..Len(s) : cmp[a][b] <= 0 /\ cmp[b][c] <= 0 => cmp[a][c] <= 0
\* Everything's zero except for one value
Sparse(b) == [k \in 1..b.n |-> IF k = b.at + 1 THEN b.v ELSE 0]
Found(b) == /\ b.r /\ b.has /\ ~b.not /\ b.find2 = -1
            /\ b.find = (IF b.v = 0 THEN 0 ELSE b.at)
GivenBack(b, d) == d.n = b.n /\ d.nz = (IF b.v = 0 THEN <<>> ELSE <<[at |-> b.at, v |-> b.v]>>)
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "new" -> /\ IF Ev.v = <<>> THEN Look /\ ~Ev.r ELSE New(Ev.i, Ev.v, Ev.own) /\ Ev.r
                           /\ NoRel
       [] Ev.op = "slice" -> NewSlice(Ev.i, Ev.p, Ev.off, Ev.n) /\ NoRel /\ Ev.r = (Slice(data[Ev.p], Ev.off, Ev.n) # <<>>)
       [] Ev.op = "ref" -> Ref(Ev.i) /\ NoRel /\ Ev.r
       [] Ev.op = "unref" -> Unref(Ev.i) /\ Rel(Released(Ev.i))
       [] Ev.op = "todata" -> Unref(Ev.i) /\ Rel(Released(Ev.i)) /\ Ev.d = data[Ev.i]
       [] Ev.op = "find" -> Look /\ Ev.r = IndexOf(data[Ev.i], Ev.x) /\ Ev.has = Has(data[Ev.i], Ev.x) /\ NoRel
       [] Ev.op = "null" -> Look /\ Ev.r /\ NoRel
       [] Ev.op = "laws" -> Look /\ NoRel /\ Laws([k \in 1..Len(Ev.s) |-> IF Ev.s[k] = 0 THEN <<>> ELSE data[Ev.s[k]]], Ev.eq, Ev.cmp, Ev.hash)
       [] Ev.op = "bigs" -> /\ Look /\ NoRel /\ \A k \in 1..Len(Ev.s) : Found(Ev.s[k]) /\ GivenBack(Ev.s[k], Ev.d[k])
                            /\ Laws([k \in 1..Len(Ev.s) |-> Sparse(Ev.s[k])], Ev.eq, Ev.cmp, Ev.hash)
  /\ Obs
Step ==
  \/ Ev.e = "scn" /\ data' = [i \in I |-> <<>>] /\ refs' = [i \in I |-> 0] /\ parent' = [i \in I |-> 0] /\ alive' = {} /\ given' = {}
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ alive = {} /\ UNCHANGED ivars
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
