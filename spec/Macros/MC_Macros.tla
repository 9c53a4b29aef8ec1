------------------------------ MODULE MC_Macros ------------------------------
(* Every kind of build with every configuration of the filter at run time *)
EXTENDS Macros, Json
CONSTANTS Maxes, Asserted, Levels, Levels0
VARIABLES op
Minus == {-1, 0, 1, 2, 3, 4, 5}
MinusA == {-1, 0, 1, 3, 6}
Some == {ALWAYS, INHERIT, 0, 1, 2, 3, 4, 5}
Flag(b) == IF b THEN 1 ELSE 0
Init == \E b \in [max : Maxes, assert : Asserted, debug : BOOLEAN, mod : 0..2] : MInit(b) /\ op = <<>>
Next ==
  /\ UNCHANGED build
  /\ \/ \E m \in 1..2, l \in Levels : Set(m, "level", l) /\ op' = <<"level", m, l>>
     \/ \E l \in Levels0 : Set(0, "level", l) /\ op' = <<"level", 0, l>>
     \/ \E m \in 0..2, b \in BOOLEAN : Set(m, "off", b) /\ op' = <<"off", m, Flag(b)>>
View == mvars
\* Run time configuration never brings back what the build has left out
Bounded == \A lvl \in 1..5 : ~CompiledIn(build, lvl) => Message(lvl, "x") = {<<>>}
\* ... and whatever has been compiled in obeys it
Obeys == \A lvl \in 1..5 : CompiledIn(build, lvl) => \A d \in Message(lvl, "x") : (Len(d) = 1) = Enabled(Current(build), lvl)
\* A build which has messages of some level has the more important ones too
Nested == \A lvl \in 1..4 : CompiledIn(build, lvl + 1) => CompiledIn(build, lvl)
\* Side effects of GVERIFY don't depend on the build or on the configuration
Same == \A form \in 1..8 : Evaluations(form) = {1}
\* A release build is silent about assertions unless it has been told otherwise
Silent == ~build.debug /\ build.assert < 0 => \A form \in 0..8, a, b \in -1..2 : ~Complains(form, a, b)
\* Nothing which holds is ever complained about
Truthful == \A form \in 0..8, a, b \in -1..2 : Complains(form, a, b) => ~Holds(form, a, b)
\* Comparisons are what they are called
Opposite == \A a, b \in -1..2 : /\ Holds(3, a, b) # Holds(4, a, b) /\ Holds(5, a, b) # Holds(8, a, b) /\ Holds(6, a, b) # Holds(7, a, b)
                                /\ Holds(1, a, b) => Holds(0, a, b)
=============================================================================
