---------------------------- MODULE MC_IntArray ----------------------------
EXTENDS IntArray, TLC, Json
CONSTANTS N, Vals, MaxRefs
Extreme == {-2147483647 - 1, 0, 2147483647}
Two == {-5, 2147483647}
VARIABLES op
vars == avars
Seqs == SeqsUpTo(Vals, N)
Small == SeqsUpTo(Vals, 2)
Huge == 2147483647
Txt(v) == IF v = <<>> THEN "-" ELSE v
Init == AInit /\ op = <<>>
Next ==
  /\ \/ \E v \in Seqs : New(v) /\ op' = <<"new">> \o v
     \/ \E v \in Small : Append_(v) /\ op' = <<"append">> \o v
     \/ \E v \in Small : Prepend(v) /\ op' = <<"prepend">> \o v
     \/ \E v \in Small, p \in 0..N : Insert(p, v, IF p <= Len(arr) THEN InsAt(arr, p, v) ELSE IF v = <<>> THEN arr ELSE [i \in 1..p |-> IF i <= Len(arr) THEN arr[i] ELSE 0] \o v) /\ op' = <<"insert", p>> \o v
     \/ \E n \in 0..N : SetCount(n, [i \in 1..n |-> IF i <= Len(arr) THEN arr[i] ELSE 0]) /\ op' = <<"count", n>>
     \/ \E x \in Vals : Remove(x) /\ op' = <<"remove", x>>
     \/ \E x \in Vals : RemoveFast(x) /\ op' = <<"removef", x>>
     \/ \E x \in Vals : RemoveAll(x) /\ op' = <<"removeall", x>>
     \/ \E x \in Vals : RemoveAllFast(x) /\ op' = <<"removeallf", x>>
     \/ \E p \in (0..N) \cup {Huge} : RemoveIndex(p) /\ op' = <<"removei", p>>
     \/ \E p \in (0..N) \cup {Huge} : RemoveIndexFast(p) /\ op' = <<"removeif", p>>
     \/ \E p, n \in (0..N) \cup {Huge} : RemoveRange(p, n) /\ op' = <<"range", p, n>>
     \/ \E a \in BOOLEAN : \E s \in [1..Len(arr) -> Elems(arr)] : Sort(a, s) /\ op' = <<"sort", IF a THEN 1 ELSE 0>>
     \/ Ref /\ op' = <<"ref">>
     \/ Unref /\ op' = <<"unref">>
     \/ \E k \in 0..2 : Free /\ op' = <<"free", k>>
     \/ \E x \in Vals : Live /\ Look /\ op' = <<"find", x>>
  /\ Len(arr') <= N /\ refs' <= MaxRefs
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
\* sorting leaves no choice
OneWay == \A a \in BOOLEAN : Cardinality({s \in [1..Len(arr) -> Elems(arr)] : IsSorted(s, arr, a)}) <= 1
Laws == \A x \in Vals : /\ Permutation(AllFast(arr, x), Without(arr, x))
                        /\ (Has(arr, x) <=> IndexOf(arr, x) >= 0)
                        /\ Len(Without(arr, x)) = Len(arr) - CountOf(arr, x)
=============================================================================
