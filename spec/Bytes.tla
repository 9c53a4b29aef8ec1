------------------------------- MODULE Bytes -------------------------------
(* Strings and blocks of data are sequences of bytes *)
EXTENDS Seqs

\* By the first difference, a string being less than its continuations
BCmp(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      at == CHOOSE i \in 1..n + 1 : (i = n + 1 \/ a[i] # b[i]) /\ \A j \in 1..i - 1 : a[j] = b[j]
  IN IF at <= n THEN (IF a[at] < b[at] THEN -1 ELSE 1)
     ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
BLe(a, b) == BCmp(a, b) <= 0
BGe(a, b) == BCmp(a, b) >= 0
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
StripHead(s, A) ==
  LET n == Len(s)
      from == CHOOSE i \in 1..n + 1 : (i = n + 1 \/ s[i] \notin A) /\ \A j \in 1..i - 1 : s[j] \in A
  IN SubSeq(s, from, n)
StripTail(s, A) ==
  LET n == Len(s)
      cut == CHOOSE k \in 0..n : (k = n \/ s[n - k] \notin A) /\ \A j \in 0..k - 1 : s[n - j] \in A
  IN SubSeq(s, 1, n - cut)
Strip(s, A) == StripTail(StripHead(s, A), A)
AsciiSpace == {9, 10, 12, 13, 32}
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerStr(s) == [i \in 1..Len(s) |-> Lower(s[i])]
=============================================================================
