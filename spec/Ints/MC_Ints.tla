------------------------------- MODULE MC_Ints -------------------------------
EXTENDS Ints, TLC, Json
CONSTANTS MaxRefs, Kinds, Lens
KindsQ == {"copy", "take", "static", "func", "gfree"}
VARIABLES op
vars == ivars
Huge == 2147483647
Init == IInit /\ op = <<>>
Content(n) == [k \in 1..n |-> 10 + k]
Next ==
  \* numbered in the order of creation
  \/ \E i \in I, n \in Lens, k \in Kinds : (\A j \in I : j < i => j \in alive \/ data[j] # <<>>) /\ data[i] = <<>>
        /\ New(i, Content(n), k = "func") /\ op' = <<"new", i, k>> \o Content(n)
  \/ \E i, p \in I, off \in {0, 1, 2, Huge}, n \in {0, 1, 2, Huge} :
       (\A j \in I : j < i => data[j] # <<>>) /\ data[i] = <<>> /\ NewSlice(i, p, off, n) /\ op' = <<"slice", i, p, off, n>>
  \/ \E i \in I : refs[i] < MaxRefs /\ Ref(i) /\ op' = <<"ref", i>>
  \/ \E i \in I : Unref(i) /\ op' = <<"unref", i>>
  \/ \E i \in I : Unref(i) /\ op' = <<"todata", i>>
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
=============================================================================
