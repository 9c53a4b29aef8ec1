------------------------------- MODULE Macros -------------------------------
(* Logging and assertion macros: what the build has decided (the maximum     *)
(* level, whether it's a debug one, the current module), and what is left of *)
(* the macros then. Filtering itself is Log's.                               *)
(*                                                                           *)
(* Module 0 is the default one, 1 the one the code is in, 2 its parent.      *)
EXTENDS Log

VARIABLES build  \* [max, assert, debug, mod], max and assert are -1 if not given
mvars == <<lvars, build>>

Max(b) == IF b.max >= 0 THEN b.max ELSE IF b.debug THEN 5 ELSE 4
AssertLevel(b) == IF b.assert >= 0 THEN b.assert ELSE IF b.debug THEN 1 ELSE Max(b) + 1
DefaultLevel(b) == IF b.debug THEN 4 ELSE 3
CompiledIn(b, level) == Max(b) >= level
Asserts(b) == Max(b) >= AssertLevel(b)
\* The module the code is in
Current(b) == IF b.mod = 0 THEN -1 ELSE 1
Names == <<"one", "two">>
Mods(b) == [m \in 0..2 |-> IF m = 0 THEN Module(Null, 3)
                           ELSE [Module(Names[m], INHERIT) EXCEPT !.parent = IF m = 1 /\ b.mod = 2 THEN 2 ELSE -1]]
MInit(b) == build = b /\ mods = Mods(b) /\ func = "custom" /\ func2 = "custom" /\ stamp = FALSE /\ fmt = DefaultFmt /\ tid = FALSE

\* What arrives when a message of this level is sent
Message(level, text) == IF CompiledIn(build, level) THEN Delivered(Current(build), level, text, 0) ELSE {<<>>}
\* How many times its arguments are evaluated
Evaluated(level) == IF CompiledIn(build, level) THEN 1 ELSE 0

\* Assertions: 0 is GASSERT, 1 GVERIFY, ...
Holds(form, a, b) ==
  CASE form \in {0, 1} -> a > 0 [] form = 2 -> ~(a > 1) [] form = 3 -> a = b [] form = 4 -> a # b
    [] form = 5 -> a >= b [] form = 6 -> a > b [] form = 7 -> a <= b [] form = 8 -> a < b
\* The expression is evaluated by all of them in any build, except for GASSERT
Evaluations(form) == IF form = 0 /\ ~Asserts(build) THEN {0} ELSE {1}
\* ... and the value it's compared with at most once, always if it is compared
Evaluations2(form) == IF form < 3 THEN {0} ELSE IF Asserts(build) THEN {1} ELSE {0, 1}
Complains(form, a, b) == /\ Asserts(build) /\ ~Holds(form, a, b)
                         /\ Enabled(Current(build), AssertLevel(build))
RECURSIVE ContainsText(_, _)
ContainsText(s, t) == StartsWithText(s, t) \/ (s # "" /\ ContainsText(Tail(s), t))
EndsWithText(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Complaint(text, e1, e2, file, line) ==
  /\ StartsWithText(text, "Assert ")
  /\ ContainsText(text, e1) /\ ContainsText(text, e2)
  /\ EndsWithText(text, " failed at " \o file \o ":" \o ToString(line))

ErrMsg(k) == CASE k \in {0, 1} -> "Unknown error" [] k = 2 -> "what went wrong" [] k = 3 -> ""
=============================================================================
