-------------------------------- MODULE Strv --------------------------------
(* Vectors of strings. A vector may be absent, which is about the same as    *)
(* being empty.                                                              *)
EXTENDS Bytes

CONSTANT V         \* vectors
VARIABLES there,   \* those which are not absent
          vec      \* vector -> sequence of strings
vvars == <<there, vec>>
VInit == there = {} /\ vec = [v \in V |-> <<>>]
Absent == \A v \in V : v \notin there => vec[v] = <<>>

Put(v, s) == vec' = [vec EXCEPT ![v] = s]
New(v, s) == v \notin there /\ there' = there \cup {v} /\ Put(v, s)
Drop(v) == there' = there \ {v} /\ Put(v, <<>>)
\* Adding something makes a vector
Add(v, ss) == /\ Put(v, vec[v] \o ss)
              /\ there' = IF ss = <<>> THEN there ELSE there \cup {v}
Edit(v, s) == Put(v, s) /\ UNCHANGED there
\* (zero-based) position, negative ones are never valid
RemoveAt(v, pos) == Edit(v, IF pos >= 0 /\ pos < Len(vec[v]) THEN DelAt(vec[v], pos, 1) ELSE vec[v])
RemoveOne(v, s) == RemoveAt(v, IndexOf(vec[v], s))
RemoveAll(v, s) == Edit(v, Without(vec[v], s))
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN s ELSE <<Head(s)>> \o Dedup(Without(Tail(s), Head(s)))
RemoveDups(v) == Edit(v, Dedup(vec[v]))
StripAll(v) == Edit(v, [i \in 1..Len(vec[v]) |-> Strip(vec[v][i], AsciiSpace)])
IsSorted(s, asc) == IF asc THEN Ordered(s, BLe) ELSE Ordered(s, BGe)
Sort(v, asc, new) == Permutation(new, vec[v]) /\ IsSorted(new, asc) /\ Edit(v, new)
Look == UNCHANGED vvars
\* Results of the queries
Same(v, w) == vec[v] = vec[w]
BSearchOk(v, s, r) == IF Has(vec[v], s) THEN r >= 0 /\ r < Len(vec[v]) /\ vec[v][r + 1] = s ELSE r = -1
=============================================================================
