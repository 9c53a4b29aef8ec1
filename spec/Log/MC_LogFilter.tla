---------------------------- MODULE MC_LogFilter ----------------------------
(* All configurations of the filter *)
EXTENDS Log, Json
CONSTANTS M, Levels, Levels0, More
VARIABLES op
Minus == {INHERIT, 0, 2}
Minus3 == {ALWAYS, INHERIT, 0, 1, 3}
Flag(b) == IF b THEN 1 ELSE 0
Init == LInit(M, 3) /\ op = <<>>
Next ==
  \/ \E m \in 1..M, l \in Levels : Set(m, "level", l) /\ op' = <<"level", m, l>>
  \/ \E l \in Levels0 : Set(0, "level", l) /\ op' = <<"level", 0, l>>
  \/ \E m \in 1..M, p \in -1..M : p # m /\ (p <= 0 \/ p > m) /\ Set(m, "parent", p) /\ op' = <<"parent", m, p>>
  \/ \E m \in 0..M, b \in BOOLEAN : Set(m, "off", b) /\ op' = <<"off", m, Flag(b)>>
  \/ More /\ \E h \in {"none", "custom", "stdout"} : Set(1, "hook", h) /\ op' = <<"hook", 1, h>>
  \/ More /\ \E f \in {"default", "custom", "null", "stderr"} : SetFunc2(f) /\ op' = <<"func2", f>>
View == lvars
Edge == PrintT(ToJson([s |-> ToString(lvars), op |-> op', t |-> ToString(lvars')]))
MsgLevels == -3..6
\* Being enabled means being delivered
Iff == \A m \in -1..M, l \in MsgLevels : \A d \in Delivered(m, l, "x", 0) :
   Enabled(m, l) = (Len(d) = 1)
\* More important messages are never dropped in favour of less important ones
Monotonic == \A m \in -1..M, l \in 1..5 : Enabled(m, l + 1) => Enabled(m, l)
Nothing == \A m \in -1..M : ~Enabled(m, 0) /\ ~Enabled(m, -1) /\ ~Enabled(m, -3)
=============================================================================
