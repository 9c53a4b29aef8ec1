------------------------------- MODULE MC_Mbn -------------------------------
(* Inputs for the codec: byte sequences and values around the boundaries     *)
EXTENDS DataPack, TLC, Json
CONSTANTS N, A
Few == {0, 1, 63, 64, 127, 128, 129, 191, 192, 254, 255}
VARIABLES op, x
Short == SeqsUpTo(A, N) \ {<<>>}
Long == {<<f>> \o [i \in 1..k |-> m] \o g : f \in A \cup {130, 253}, k \in 0..10, m \in {128, 192, 255}, g \in {<<0>>, <<63>>, <<64>>, <<127>>, <<>>, <<127, 0>>, <<64, 255>>}}
Vals == UNION {{P[n], H[n], Neg(P[n]), Neg(H[n])} : n \in 0..9} \cup {Two64, Zero}
Around == UNION {{v, Add(v, BigInt(1)), Sub(v, BigInt(1))} : v \in Vals}
Digit(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Raw(v) == LET w == IF v.neg THEN Add(v, Two64) ELSE v IN [i \in 1..8 |-> Digit(w.m, i)]

\* The shape is unambiguous
Sound == \A b \in Short : \A sg \in BOOLEAN :
   /\ Used(sg, b) # 0 => LET p == Prefix(b, Used(sg, b)) IN
      /\ Complete(p)
      /\ Size(sg, Value(sg, p)) <= Len(p)
      /\ Fits(sg, Value(sg, p), Len(p))
   /\ Used(sg, b) = 0 => b[Len(b)] >= 128
Unique == \A a, b \in {s \in SeqsUpTo(A, 2) : Complete(s)} : \A sg \in BOOLEAN :
   Len(a) = Len(b) /\ Value(sg, a) = Value(sg, b) => [i \in 1..Len(a) |-> a[i] % 128] = [i \in 1..Len(b) |-> b[i] % 128]
Sizes == \A v \in Around : \A sg \in BOOLEAN : Fits64(sg, v) => \A n \in 1..MaxGroups : Fits(sg, v, n) = (n >= Size(sg, v))
Init == DInit /\ x = 0 /\ op = <<>>
Next == /\ \/ \E b \in Short \cup Long : op' = <<"dec", b>>
           \/ \E v \in {w \in Around : Fits64(w.neg, w)} : op' = <<"enc", Raw(v)>>
        /\ UNCHANGED <<x, buf, pos>>
View == x
Edge == PrintT(ToJson([s |-> "s", op |-> op', t |-> "s"]))
=============================================================================
