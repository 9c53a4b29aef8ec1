---------------------------- MODULE MC_LogOption ----------------------------
(* Options, types and the like *)
EXTENDS Log, Json
VARIABLES op
Names == <<"m1", "M1x", "sys", "">>
Heads == {"", "m1", "M1", "m", "m1x", "m1X", "SYS", "s ys", "x", "sysx"}
Tails == {"", "0", "1", "5", "6", "9", "05", "-1", "none", "n", "no", "nonee", "error", "E", "e", "warn", "warning", "warnings",
          "info", "inf", "debug", "d", "verbose", "verb", "v", "VERBOSE", " 1", "1 ", "x", "2:3", "e:", ":"}
Opts == {h \o ":" \o t : h \in Heads, t \in Tails} \cup Tails
TypeNames == {"stdout", "STDOUT", "stderr", "StdErr", "glib", "GLIB", "syslog", "SysLog", "custom", "", "std", "stdoutx", "glib ", "x"}
Init == LInit(4, 3) /\ op = <<>>
\* The configuration itself doesn't matter here, what's enumerated is the inputs
Quiet == UNCHANGED lvars
Next ==
  \/ \E o \in Opts, n \in 0..4 : (n \in {0, 4} \/ Len(o) < 5) /\ Quiet /\ op' = <<"option", o, n>>
  \/ \E t, u \in TypeNames : Quiet /\ op' = <<"type", t, u>>
  \/ \E v \in DOMAIN EnvNum \cup EnvBad, k \in 1..3 : Quiet /\ op' = <<"env", v, k>>
View == lvars
Edge == PrintT(ToJson([s |-> ToString(lvars), op |-> op', t |-> ToString(lvars')]))
\* An abbreviation means one level only
Clear == \A i, j \in 1..6 : \A k \in 1..7 : i # j => ~StartsWithText(LevelNames[i], SubSeq(LevelNames[j], 1, Min2(k, Len(LevelNames[j]))))
Valid == \A o \in Opts : LET x == Option(o, 4) IN x.m >= 0 => x.level \in 0..5
=============================================================================
