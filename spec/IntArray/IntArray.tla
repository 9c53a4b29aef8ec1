------------------------------ MODULE IntArray ------------------------------
(* Mutable array of integers *)
EXTENDS Seqs

VARIABLES arr, refs  \* no array if refs = 0
avars == <<arr, refs>>
AInit == arr = <<>> /\ refs = 0
Live == refs > 0
New(s) == ~Live /\ arr' = s /\ refs' = 1
Set(s) == Live /\ arr' = s /\ UNCHANGED refs
Append_(v) == Set(arr \o v)
Prepend(v) == Set(v \o arr)
\* Elements which nobody has provided the value for may have any value
Extended(new, old, n) == Len(new) = n /\ Prefix(new, Len(old)) = old
Insert(pos, v, new) ==
  /\ IF pos <= Len(arr) THEN new = InsAt(arr, pos, v)
     ELSE IF v = <<>> THEN new = arr
     ELSE Extended(Prefix(new, pos), arr, pos) /\ After(new, pos) = v
  /\ Set(new)
SetCount(n, new) == /\ IF n <= Len(arr) THEN new = Prefix(arr, n) ELSE Extended(new, arr, n)
                    /\ Set(new)
\* the hole is filled with the last one
Fast(s, pos) == LET n == Len(s) IN IF pos = n - 1 THEN Prefix(s, n - 1) ELSE [Prefix(s, n - 1) EXCEPT ![pos + 1] = s[n]]
Remove(x) == Set(IF Has(arr, x) THEN DelAt(arr, IndexOf(arr, x), 1) ELSE arr)
RemoveFast(x) == Set(IF Has(arr, x) THEN Fast(arr, IndexOf(arr, x)) ELSE arr)
RECURSIVE AllFast(_, _)
AllFast(s, x) == IF Has(s, x) THEN AllFast(Fast(s, IndexOf(s, x)), x) ELSE s
RemoveAll(x) == Set(Without(arr, x))
RemoveAllFast(x) == Set(AllFast(arr, x))
RemoveIndex(pos) == Set(DelAt(arr, Min2(pos, Len(arr)), 1))
RemoveIndexFast(pos) == Set(IF pos < Len(arr) THEN Fast(arr, pos) ELSE arr)
RemoveRange(pos, n) == Set(DelAt(arr, Min2(pos, Len(arr)), Min2(n, Len(arr))))
Up(a, b) == a <= b
Down(a, b) == a >= b
IsSorted(new, old, asc) == Permutation(new, old) /\ (IF asc THEN Ordered(new, Up) ELSE Ordered(new, Down))
Sort(asc, new) == IsSorted(new, arr, asc) /\ Set(new)
Ref == Live /\ refs' = refs + 1 /\ UNCHANGED arr
Unref == Live /\ refs' = refs - 1 /\ arr' = IF refs = 1 THEN <<>> ELSE arr
\* The contents are handed over, other references see it empty
Free == Live /\ refs' = refs - 1 /\ arr' = <<>>
Look == UNCHANGED avars

TypeOK == refs >= 0 /\ (refs = 0 => arr = <<>>)
=============================================================================
