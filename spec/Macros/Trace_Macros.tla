---------------------------- MODULE Trace_Macros ----------------------------
EXTENDS Macros, TraceBase
VARIABLE l
Ev == Tr[l]
Nobody == [max |-> -1, assert |-> -1, debug |-> FALSE, mod |-> 0]
Init == MInit(Nobody) /\ l = 1
Look == UNCHANGED mvars
SetM(m, k, v) == Set(m, k, v) /\ UNCHANGED build

\* Everything the build has decided
CfgOk ==
  LET b == [max |-> Ev.max, assert |-> Ev.assert, debug |-> Ev.debug, mod |-> Ev.mod] IN
  /\ build' = b /\ mods' = Mods(b) /\ func' = "custom" /\ func2' = "custom" /\ stamp' = FALSE /\ fmt' = DefaultFmt /\ tid' = FALSE
  /\ \A i \in 0..5 : Ev.any[i + 1] = CompiledIn(b, i)
  /\ Ev.any[7] = Asserts(b)
  /\ Ev.levels = <<-2, -1, 0, 1, 2, 3, 4, 5>>
  /\ Ev.dflt = DefaultLevel(b)
  /\ Ev.cur = Current(b)
  /\ \A m \in 1..2 : /\ Ev.mods[m].name = Mods(b)[m].name /\ Ev.mods[m].parent = Mods(b)[m].parent
                     /\ Ev.mods[m].level = INHERIT /\ Ev.mods[m].max = Max(b) /\ Ev.mods[m].flags = 0 /\ ~Ev.mods[m].hook
Text1 == (IF Ev.form \in {2, 3} THEN Ev.fn \o "() " ELSE "")
         \o (IF Ev.form \in {0, 2} THEN "<" \o Ev.text \o "|" \o ToString(Ev.n) \o ">" ELSE "plain")
MsgOk == /\ Ev.d \in Message(Ev.lvl, Text1)
         /\ Ev.evals = (IF Ev.form \in {0, 2} THEN Evaluated(Ev.lvl) ELSE 0) /\ Ev.evals2 = Ev.evals
DumpOk == /\ IF CompiledIn(build, 4) THEN DeliveredAll(Ev.d, Current(build), 4, DumpTexts(Null, Ev.b), 0) ELSE Ev.d = <<>>
          /\ Ev.evals = Evaluated(4) /\ Ev.evals2 = (IF Ev.form = 0 THEN Evaluated(4) ELSE 0)
VerifyOk == /\ Ev.evals \in Evaluations(Ev.form) /\ Ev.evals2 \in Evaluations2(Ev.form)
            /\ IF ~Complains(Ev.form, Ev.a, Ev.b) THEN Ev.d = <<>>
               ELSE /\ Len(Ev.d) = 1
                    /\ Ev.d \in Delivered(Current(build), AssertLevel(build), Ev.d[1].text, 0)
                    /\ Complaint(Ev.d[1].text, Ev.e1, Ev.e2, Ev.file, Ev.line)
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "cfg" -> CfgOk
       [] Ev.op \in {"level", "off"} -> SetM(Ev.m, Ev.op, Ev.v)
       [] Ev.op = "msg" -> Look /\ MsgOk
       [] Ev.op = "dump" -> Look /\ DumpOk
       [] Ev.op = "verify" -> Look /\ VerifyOk
       [] Ev.op = "enabled" -> Look /\ \A i \in 1..10 : Ev.r[i] = Enabled(Current(build), i - 4)
       [] Ev.op = "errmsg" -> Look /\ Ev.r = ErrMsg(Ev.k)
Step ==
  \/ Ev.e = "scn" /\ Look
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ Look
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
