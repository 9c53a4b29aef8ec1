-------------------------------- MODULE Seqs --------------------------------
(* What everything here needs to know about sequences *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Prefix(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
\* without the first n
After(s, n) == SubSeq(s, n + 1, Len(s))
\* v is inserted at (zero-based) position p
InsAt(s, p, v) == Prefix(s, p) \o v \o After(s, p)
\* n elements removed at (zero-based) position p
DelAt(s, p, n) == Prefix(s, p) \o After(s, p + n)
IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN (CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x) - 1 ELSE -1
LastIndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                     THEN (CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in (i + 1)..Len(s) : s[j] # x) - 1 ELSE -1
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Without(s, x) == SelectSeq(s, LAMBDA e : e # x)
Permutation(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountOf(s, s[i]) = CountOf(t, s[i])
Ordered(s, Le(_, _)) == \A i \in 1..Len(s) - 1 : Le(s[i], s[i + 1])
SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
Elems(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
