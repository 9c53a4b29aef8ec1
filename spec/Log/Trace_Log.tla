------------------------------ MODULE Trace_Log ------------------------------
EXTENDS Log, TraceBase
CONSTANT M
VARIABLE l
Init == LInit(M, 3) /\ l = 1
Ev == Tr[l]
Look == UNCHANGED lvars

\* What the probe of one module has to see
RECURSIVE EnStr(_, _)
EnStr(m, v) == IF v > 6 THEN "" ELSE (IF Enabled(m, v) THEN "e" ELSE ".") \o EnStr(m, v + 1)
Hook(m) == mods[Real(m)].hook
Reaches(m) == Hook(m) # "none" \/ func2 # "default" \/ func # "null"
RECURSIVE NumStr(_, _)
NumStr(m, v) == IF v > 6 THEN "" ELSE (IF Enabled(m, v) /\ Reaches(m) THEN "1" ELSE "0") \o NumStr(m, v + 1)
Via(m) == IF ~Enabled(m, ALWAYS) \/ ~Reaches(m) THEN "-" ELSE IF Hook(m) = "custom" THEN "hook"
          ELSE IF Hook(m) # "none" THEN Hook(m)
          ELSE IF func2 = "custom" THEN "func2" ELSE IF func2 # "default" THEN func2 ELSE IF func = "custom" THEN "func" ELSE func
Probe == \A i \in 1..Len(Ev.en) : LET m == i - 2 IN
   /\ Ev.en[i] = EnStr(m, -3) /\ Ev.n[i] = NumStr(m, -3) /\ Ev.via[i] = Via(m)

Text1 == CASE Ev.var = 0 -> Ev.text
           [] Ev.var = 1 -> "<" \o ToString(Ev.n) \o "|" \o Ev.text \o "|z|  1.5>"
           [] Ev.var = 2 -> Ev.text
           [] Ev.var = 3 -> "Assert " \o Ev.text \o " failed at file.c:" \o ToString(Ev.n)
           [] Ev.var = 4 -> Ev.text \o "."
           [] Ev.var = 5 -> Ev.text
           [] Ev.var = 6 -> Ev.fn \o "() " \o Ev.text
\* There are no macros for some levels in some kinds of build
LogOk == /\ IF Ev.lvl > Ev.max \/ (Ev.var >= 5 /\ Ev.lvl < 1) THEN Ev.d = <<>> ELSE Ev.d \in Delivered(Ev.m, Ev.lvl, Text1, Ev.tid)
         /\ Ev.en = Enabled(Ev.m, Ev.lvl) /\ Ev.same
DumpOk == DeliveredAll(Ev.d, Ev.m, Ev.lvl, DumpTexts(Ev.prefix, Ev.b), Ev.tid)
\* The beginning of a dump of more bytes than fit into 32 bits
HugeOk == [k \in 1..Len(Ev.d) |-> Ev.d[k].text] = DumpTexts(Null, [i \in 1..48 |-> 0])
\* Messages of one thread stay in order, nothing happens to lines
ThreadLine(i, k) == ToString(i) \o "/" \o ToString(k) \o " this is what it says"
\* n[i] is how many thread i has sent so far
RECURSIVE Woven(_, _, _, _)
Woven(d, n, m, level) ==
  IF d = <<>> THEN n = [i \in DOMAIN n |-> Ev.n]
  ELSE \E i \in DOMAIN n : /\ <<Head(d)>> \in Delivered(m, level, ThreadLine(i, n[i]), 0)
                           /\ Woven(Tail(d), [n EXCEPT ![i] = @ + 1], m, level)
ThreadsOk ==
  IF Delivered(Ev.m, Ev.lvl, "", 0) = {<<>>} THEN Ev.d = <<>>
  ELSE Woven(Ev.d, [i \in 1..Ev.cnt |-> 0], Ev.m, Ev.lvl)
Levels == \A i \in 0..M : Ev.lv[i + 1] = mods'[i].level
OptionOk == LET o == Option(Ev.o, Ev.n) IN
   /\ ParseOption(Ev.o, Ev.n) /\ Levels /\ Ev.same
   /\ Ev.r = (o.m >= 0)
   /\ IF Ev.quiet \/ Ev.r THEN ~Ev.err ELSE Ev.err /\ Ev.msg
DescribeOk == /\ \A i \in 1..6 : \E k \in 1..Len(Ev.d) : StartsWithText(Ev.d[k], "   " \o ToString(i - 1) \o ", " \o LevelNames[i] \o " ")
                                                         /\ Contains(Ev.d[k], "(default)") = (i - 1 = Ev.dflt)
              /\ \A i \in 1..Ev.n : NoName(mods[i].name) \/ Has(Ev.d, "  " \o mods[i].name)
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "probe" -> Look /\ Probe
       [] Ev.op \in {"level", "parent", "off", "hide", "hook", "name"} -> Set(Ev.m, Ev.op, Ev.v)
       [] Ev.op = "func" -> SetFunc(Ev.v)
       [] Ev.op = "func2" -> SetFunc2(Ev.v)
       [] Ev.op = "stamp" -> SetStamp(Ev.v)
       [] Ev.op = "tid" -> SetTid(Ev.v)
       [] Ev.op = "fmt" -> SetFmt(Ev.v)
       [] Ev.op = "log" -> Look /\ LogOk
       [] Ev.op = "dump" -> Look /\ DumpOk
       [] Ev.op = "huge" -> Look /\ HugeOk
       [] Ev.op = "threads" -> Look /\ ThreadsOk
       [] Ev.op = "option" -> OptionOk
       [] Ev.op = "describe" -> Look /\ DescribeOk
       [] Ev.op = "type" -> /\ SetType(Ev.t, Ev.name) /\ Levels /\ Ev.r = KnownType(Ev.t)
                            /\ Ev.now = TypeOf(func') /\ Ev.dn = mods'[0].name
       [] Ev.op = "env" -> /\ Look
                           /\ Ev.level = (IF Ev.k = 1 THEN EnvLevel(Ev.v, Ev.dflt) ELSE Ev.dflt)
                           /\ Ev.stamp = (IF Ev.k = 2 /\ EnvFlag(Ev.v) THEN 1 ELSE 0)
                           /\ Ev.tid = (IF Ev.k = 3 /\ EnvFlag(Ev.v) THEN 1 ELSE 0)
Start == /\ mods' = [m \in 0..M |-> Module(IF m = 0 THEN Null ELSE "m" \o ToString(m), IF m = 0 THEN 3 ELSE INHERIT)]
         /\ func' = "custom" /\ func2' = "default" /\ stamp' = FALSE /\ fmt' = DefaultFmt /\ tid' = FALSE
Step ==
  \/ Ev.e = "scn" /\ Start
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ Look
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
