----------------------------- MODULE MC_History -----------------------------
EXTENDS History, TLC, Json
CONSTANTS Size, Span, Vals
VARIABLES op
V3 == {-3, 0, 2}
V2 == {-1, 4}
vars == <<ents, size, span, now>>
Init == HInit(Size, BigInt(Span), BigInt(0)) /\ op = <<>>
Next ==
  \/ \E d \in 1..(Span + 1) : SetTime(Add(now, BigInt(d))) /\ op' = <<"tick", d>>
  \/ \E v \in Vals : AddSample(BigInt(v)) /\ op' = <<"add", v>>
  \/ Clear /\ op' = <<"clear">>
  \/ Look /\ op' = <<"look">>
\* Only the age matters
Age(e) == <<Sub(now, e.t), e.v>>
Cap(b) == IF Lt(BigInt(Span), b[1]) THEN <<"old", b[2]>> ELSE b
View == [i \in 1..Len(ents) |-> Cap(Age(ents[i]))]
ViewN == [i \in 1..Len(ents') |-> LET b == <<Sub(now', ents'[i].t), ents'[i].v>> IN Cap(b)]
Edge == PrintT(ToJson([s |-> ToString(View), op |-> op', t |-> ToString(ViewN)]))
Inv1 == Sensible(-5..5)
Inv2 == Unique(-5..5)
=============================================================================
