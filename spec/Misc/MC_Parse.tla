------------------------------ MODULE MC_Parse ------------------------------
EXTENDS Misc, Json
CONSTANTS N, A, B
\* space - + 0 1 7 8 9 a x
Few == {32, 45, 43, 48, 49, 55, 56, 97, 120}
More == {9, 11, 32, 45, 43, 48, 49, 55, 56, 57, 65, 102, 103, 88, 122}
FewBases == {0, 10, 16, 2, 36, 1}
MoreBases == {0, 2, 8, 10, 16, 1}
VARIABLES op, x
Texts == SeqsUpTo(A, N)
Init == x = 0 /\ op = <<>>
Next == /\ \E s \in Texts, b \in B : op' = <<"parse", b, s>>
        /\ UNCHANGED x
View == x
Edge == PrintT(ToJson([s |-> "s", op |-> op', t |-> "s"]))
Types == {"int", "uint", "int64", "uint64"}
Wider == \A s \in SeqsUpTo(A, 2), b \in B : /\ Accepts("int", s, b) => Accepts("int64", s, b)
                                            /\ Accepts("uint", s, b) => Accepts("uint64", s, b)
                                            /\ Accepts("uint", s, b) => Accepts("int64", s, b)
Blank == \A t \in Types, b \in B, n \in 0..3 : ~Accepts(t, [i \in 1..n |-> 32], b)
Spaced == \A s \in SeqsUpTo(A, 2), b \in B, t \in Types : Accepts(t, s, b) = Accepts(t, <<32>> \o s \o <<9, 10>>, b)
=============================================================================
