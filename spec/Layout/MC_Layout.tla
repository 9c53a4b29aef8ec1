------------------------------ MODULE MC_Layout ------------------------------
(* Pairs of versions and values to align *)
EXTENDS Layout
CONSTANTS A, B, Vals
VARIABLES x, y, v, n
Parts == {0, 1, 2, 69, 78, 79, 80, 127, 128, 4094, 4095}
Few == {0, 1, 79, 128, 4095}
V == A \X B \X B
Init == x \in V /\ y = <<0, 0, 0>> /\ v = 0 /\ n = 2
Next ==
  \/ y = <<0, 0, 0>> /\ v = 0 /\ y' \in V /\ UNCHANGED <<x, v, n>>
  \/ x = <<0, 0, 0>> /\ y = x /\ v = 0 /\ v' \in 1..Vals /\ n' \in {2, 4, 8} /\ UNCHANGED <<x, y>>
P(t) == Pack(t[1], t[2], t[3])
Back == Major(P(x)) = x[1] /\ Minor(P(x)) = x[2] /\ Micro(P(x)) = x[3]
Order == (P(x) < P(y)) = Less3(x, y)
Positive == P(x) >= 0
Aligned == LET r == Align(v, n) IN /\ r % n = 0 /\ r >= v /\ r - v < n /\ Align(r, n) = r
                                   /\ BigAlign(BigInt(v), n) = BigInt(r)
=============================================================================
