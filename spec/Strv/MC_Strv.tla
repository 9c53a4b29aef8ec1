------------------------------ MODULE MC_Strv ------------------------------
EXTENDS Strv, TLC, Json
CONSTANTS N, Words, WithNew
Three == {<<>>, <<97>>, <<32, 97, 9>>}
Four == {<<>>, <<97>>, <<97, 98>>, <<32, 97>>, <<200>>}
VARIABLES op
vars == vvars
Init == VInit /\ op = <<>>
OneSort(v, asc) == CHOOSE s \in [1..Len(vec[v]) -> Elems(vec[v])] : Permutation(s, vec[v]) /\ IsSorted(s, asc)
Flag(b) == IF b THEN 1 ELSE 0
Next ==
  /\ \E v \in V :
       \/ v = 1 /\ \E s \in SeqsUpTo(Words, N) : WithNew /\ New(v, s) /\ op' = <<"new", v>> \o s
       \/ New(v, <<>>) /\ op' = <<"new", v>>
       \/ Drop(v) /\ op' = <<"drop", v>>
       \/ \E w \in Words : Add(v, <<w>>) /\ op' = <<"add", v, w>>
       \/ \E w \in SeqsUpTo(Words, 2) : Add(v, w) /\ op' = <<"addv", v>> \o w
       \/ Add(v, <<>>) /\ op' = <<"add", v>>
       \/ \E p \in -1..N, f \in 0..1 : RemoveAt(v, p) /\ op' = <<"removeat", v, p, f>>
       \/ \E w \in Words : RemoveOne(v, w) /\ op' = <<"remove", v, w, 0>>
       \/ \E w \in Words : RemoveAll(v, w) /\ op' = <<"remove", v, w, 1>>
       \/ \E i \in 1..Len(vec[v]) : RemoveOne(v, vec[v][i]) /\ op' = <<"removeel", v, i - 1, 0>>
       \/ \E i \in 1..Len(vec[v]) : RemoveAll(v, vec[v][i]) /\ op' = <<"removeel", v, i - 1, 1>>
       \/ \E i \in 1..Len(vec[v]) : Add(v, <<vec[v][i]>>) /\ op' = <<"addel", v, i - 1>>
       \/ RemoveDups(v) /\ op' = <<"dups", v>>
       \/ StripAll(v) /\ op' = <<"strip", v>>
       \/ \E a \in BOOLEAN : Sort(v, a, OneSort(v, a)) /\ op' = <<"sort", v, Flag(a)>>
       \/ \E w \in Words : Look /\ op' = <<"find", v, w>>
       \/ \E w \in V : Look /\ op' = <<"equal", v, w>>
       \/ \E i \in 0..1, k \in 0..N : v = 1 /\ i <= Len(vec[v]) /\ Look /\ op' = <<"equalview", v, i, k>>
       \/ \E i \in 1..Len(vec[v]) : v = 1 /\ Look /\ op' = <<"findel", v, i - 1>>
       \/ \E w \in Words, a \in BOOLEAN : IsSorted(vec[v], a) /\ Look /\ op' = <<"bsearch", v, w, Flag(a)>>
  /\ \A v \in V : Len(vec'[v]) <= (IF v = 1 THEN N ELSE 1)
  /\ Strip(<<>>, {}) = <<>>
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
OneWay == \A v \in V, a \in BOOLEAN :
   Cardinality({s \in [1..Len(vec[v]) -> Elems(vec[v])] : Permutation(s, vec[v]) /\ IsSorted(s, a)}) <= 1
DedupLaws == \A v \in V : LET d == Dedup(vec[v]) IN
   /\ Elems(d) = Elems(vec[v]) /\ Len(d) = Cardinality(Elems(d)) /\ Dedup(d) = d
   /\ \A i, j \in 1..Len(d) : i < j => IndexOf(vec[v], d[i]) < IndexOf(vec[v], d[j])
OrderLaws == \A a, b \in Words : (BCmp(a, b) = 0) = (a = b) /\ BCmp(a, b) = -BCmp(b, a)
=============================================================================
