------------------------------ MODULE MC_Blocks ------------------------------
EXTENDS Misc, Json
CONSTANTS N, A
Two2 == {0, 255}
Three == {0, 1, 255}
VARIABLES op, x
Blocks == SeqsUpTo(A, N) \cup {None}
LongBlocks == {[i \in 1..n |-> (i * k) % 256] : n \in {7, 8, 9, 15, 16, 17}, k \in {1, 77}}
Init == x = 0 /\ op = <<>>
Next == /\ \/ \E a, b \in Blocks : op' = <<"pair", a, b>>
           \/ \E a, b \in LongBlocks : op' = <<"pair", a, b>>
           \/ \E a \in Blocks : \E i \in 0..Len(a) : \E n \in 0..Len(a) - i : ~Absent(a) /\ op' = <<"overlap", a, i, n>>
           \/ \E s \in SeqsUpTo({<<>>, <<1>>, <<2, 3>>}, 4) : op' = <<"concat">> \o s
           \/ \E a \in Blocks : op' = <<"conv", a>>
        /\ UNCHANGED x
View == x
Edge == PrintT(ToJson([s |-> "s", op |-> op', t |-> "s"]))
XorLaws == \A a, b \in SeqsUpTo(A, 2) : Xor(a, b) = Xor(b, a) /\ (Len(a) = Len(b) => Xor(Xor(a, b), b) = a)
Fixes == \A a, b \in SeqsUpTo(A, 2) : StartsWith(a \o b, a) /\ EndsWith(a \o b, b) /\ (StartsWith(a, b) /\ EndsWith(a, b) /\ Len(a) = Len(b)) = (a = b)
=============================================================================
