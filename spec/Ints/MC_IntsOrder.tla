---------------------------- MODULE MC_IntsOrder ----------------------------
(* The arrays to compare. The order which compares them byte by byte and     *)
(* then by length is one that satisfies the requirements.                    *)
EXTENDS Seqs, TLC, Json
CONSTANTS N, Vals
Some == {0, 1, 256, 2147483647}
More == {-2147483647 - 1, -1, 0, 1, 256, 65536, 2147483647}
VARIABLES op, x
Arrays == SeqsUpTo(Vals, N)
\* most significant byte is the last one in memory
Bytes(v) == LET u == v % 65536 IN LET w == (v - u) \div 65536 IN LET hi == w % 65536 IN <<u % 256, u \div 256, hi % 256, hi \div 256>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Bytes(Head(s)) \o Flat(Tail(s))
RECURSIVE CmpB(_, _)
CmpB(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
              ELSE IF Head(a) < Head(b) THEN -1 ELSE IF Head(a) > Head(b) THEN 1 ELSE CmpB(Tail(a), Tail(b))
Cmp(a, b) == CmpB(Flat(a), Flat(b))
Lawful == \A a, b \in Arrays :
   /\ (Cmp(a, b) = 0) = (a = b) /\ Cmp(a, b) = -Cmp(b, a)
   /\ (Len(a) < Len(b) /\ Prefix(b, Len(a)) = a) => Cmp(a, b) < 0
Transitive == \A a, b, c \in SeqsUpTo(Vals, 1) : Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
Init == x = 0 /\ op = <<>>
Next == \E a \in Arrays : op' = <<"arr">> \o a /\ UNCHANGED x
View == x
Edge == PrintT(ToJson([s |-> "s", op |-> op', t |-> "s"]))
=============================================================================
