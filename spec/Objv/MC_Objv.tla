------------------------------ MODULE MC_Objv ------------------------------
EXTENDS Objv, TLC, Json
CONSTANTS N
VARIABLES op
vars == ovars
Huge == 2147483647
Init == OInit /\ op = <<>>
Flag(b) == IF b THEN 1 ELSE 0
Next ==
  /\ \/ \E o \in O : (\A p \in O : p < o => p \in born) /\ NewObj(o) /\ op' = <<"obj", o>>
     \/ \E o \in O : DropObj(o) /\ op' = <<"objdrop", o>>
     \/ \E v \in V :
       \/ \E s \in SeqsUpTo(O, 2) : New(v, s) /\ op' = <<"new", v>> \o s
       \/ Free(v) /\ op' = <<"free", v>>
       \/ \E w \in V : v # w /\ Copy(v, w) /\ op' = <<"copy", v, w>>
       \/ \E o \in O : Add(v, o) /\ op' = <<"add", v, o>>
       \/ \E o \in O, p \in (0..N) \cup {Huge} : Insert(v, o, p) /\ op' = <<"insert", v, o, p>>
       \/ \E w \in V : AppendAll(v, w) /\ op' = <<"append", v, w>>
       \/ \E p \in (0..N) \cup {Huge} : RemoveAt(v, p) /\ op' = <<"removeat", v, p>>
       \/ \E o \in O, a \in BOOLEAN : Remove(v, o, a) /\ op' = <<"remove", v, o, Flag(a)>>
       \/ Same /\ op' = <<"look", v>>
       \/ \E w \in V : Same /\ op' = <<"equal", v, w>>
  /\ \A v \in V : Len(vec'[v]) <= (IF v = 1 THEN N ELSE 2)
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
=============================================================================
