------------------------------- MODULE MC_Hex -------------------------------
EXTENDS Misc, Json
CONSTANTS N, A
\* digits of each kind and everything next to them
Edges == {47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 128 + 48, 255}
VARIABLES op, x
Texts == SeqsUpTo(A, N) \cup {<<c, 48>> : c \in 1..255} \cup {<<55, c>> : c \in 1..255}
         \cup UNION {{[i \in 1..n |-> 65 + (i % 6)], [i \in 1..n |-> IF i = n THEN 103 ELSE 48 + (i % 10)]} : n \in 1..20}
Blocks == {<<c>> : c \in 0..255} \cup {[i \in 1..n |-> (17 * i + n) % 256] : n \in 0..40}
RoundTrip == \A b \in Blocks, u \in BOOLEAN : /\ Len(ToHex(b, u)) = 2 * Len(b)
                                              /\ b # <<>> => IsHexText(ToHex(b, u)) /\ FromHex(ToHex(b, u)) = b
CaseOnly == \A s \in SeqsUpTo(A, 2) : IsHexText(s) => LowerStr(s) = ToHex(FromHex(s), FALSE)
DumpSize == \A b \in Blocks : Len(DumpLine(b)) < 70
Init == x = 0 /\ op = <<>>
Next == /\ \/ \E s \in Texts : op' = <<"unhex", s>>
           \/ \E b \in Blocks : op' = <<"hex", b>>
           \/ \E b \in Blocks : op' = <<"hexdump", b>>
        /\ UNCHANGED x
View == x
Edge == PrintT(ToJson([s |-> "s", op |-> op', t |-> "s"]))
=============================================================================
