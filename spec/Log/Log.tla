--------------------------------- MODULE Log ---------------------------------
(* Log configuration, filtering and rendering.                               *)
(*                                                                           *)
(* Module 0 is the default one, it's used when none is given (-1).           *)
EXTENDS Text, Seqs

ALWAYS == -2
INHERIT == -1
Null == "<null>"

VARIABLES
  mods,   \* what is configured for each module
  func,   \* the log function: "custom", "null" or one of the standard ones
  func2,  \* what decides where the message goes: "default", "custom", "null" or a standard one
  stamp,  \* timestamps are on
  fmt,    \* format of the timestamp
  tid     \* thread identifiers are on
lvars == <<mods, func, func2, stamp, fmt, tid>>

DefaultFmt == "%Y-%m-%d %H:%M:%S "
LevelNames == <<"none", "error", "warning", "info", "debug", "verbose">>
Module(name, level) == [name |-> name, level |-> level, parent |-> -1, off |-> FALSE, hide |-> FALSE, hook |-> "none"]
LInit(M, default) ==
  /\ mods = [m \in 0..M |-> Module(IF m = 0 THEN Null ELSE "m" \o ToString(m), IF m = 0 THEN default ELSE INHERIT)]
  /\ func = "custom" /\ func2 = "default" /\ stamp = FALSE /\ fmt = DefaultFmt /\ tid = FALSE

-----------------------------------------------------------------------------
(* Filtering *)
Real(m) == IF m = -1 THEN 0 ELSE m
\* The module which decides and whether something has been disabled on the way there
RECURSIVE Decides(_)
Decides(m) == IF mods[m].level = INHERIT /\ mods[m].parent >= 0 THEN Decides(mods[m].parent) ELSE m
RECURSIVE Disabled(_)
Disabled(m) == mods[m].off \/ (mods[m].level = INHERIT /\ mods[m].parent >= 0 /\ Disabled(mods[m].parent))
Effective(m) == LET l == mods[Decides(m)].level IN IF l = INHERIT THEN mods[0].level ELSE l
Enabled(m0, level) == LET m == Real(m0) IN
  /\ func2 # "null"
  /\ ~Disabled(m)
  /\ (level > 0 /\ level <= Effective(m)) \/ level = ALWAYS

-----------------------------------------------------------------------------
(* Rendering *)
\* Broken down time the clock of the test shows
Clock == [c \in {"Y", "m", "d", "H", "M", "S", "%"} |->
   CASE c = "Y" -> "2009" [] c = "m" -> "02" [] c = "d" -> "13" [] c = "H" -> "23" [] c = "M" -> "31" [] c = "S" -> "30" [] c = "%" -> "%"]
RECURSIVE Expand(_)
Expand(f) == IF f = "" THEN ""
             ELSE IF Ch(f, 1) = "%" /\ Len(f) > 1 THEN Clock[Ch(f, 2)] \o Expand(SubSeq(f, 3, Len(f)))
             ELSE Ch(f, 1) \o Expand(Tail(f))
MaxStamp == 31
\* One which is too long may be left out
Stamps == IF ~stamp THEN {""} ELSE LET s == Expand(fmt) IN IF Len(s) > MaxStamp THEN {s, ""} ELSE {s}
NoName(n) == n = Null \/ n = ""
Tid(t) == IF tid THEN "[" \o ToString(t) \o "] " ELSE ""
Line(name, level, text, t) ==
  {Tid(t) \o s \o (IF NoName(name) THEN "" ELSE "[" \o name \o "] ")
   \o (IF level = 2 THEN "WARNING: " ELSE IF level = 1 THEN "ERROR: " ELSE "") \o text \o "\n" : s \in Stamps}
\* LOG_xxx
Priority(level) == CASE level = 5 -> 7 [] level = 4 -> 6 [] level = 2 -> 4 [] level = 1 -> 3 [] OTHER -> 5
SysLine(name, level, text, t) ==
  Tid(t) \o (IF NoName(name) \/ name = mods[0].name THEN "" ELSE "[" \o name \o "] ")
  \o (IF level = 2 THEN "WARNING! " ELSE IF level = 1 THEN "ERROR! " ELSE "") \o text
\* G_LOG_LEVEL_xxx
GLevel(level) == CASE level = 5 -> 128 [] level = 4 -> 64 [] level = 2 -> 16 [] level = 1 -> 8 [] OTHER -> 32
Out(via, m, name, level, text) == [via |-> via, m |-> m, name |-> name, lvl |-> level, text |-> text]
\* What the writer makes out of a message
Written(f, name, level, text, t) ==
  CASE f = "custom" -> {<<Out("func", -1, name, level, text)>>}
    [] f = "null" -> {<<>>}
    [] f = "stdout" -> {<<Out("stdout", -1, Null, 0, x)>> : x \in Line(name, level, text, t)}
    [] f = "stderr" -> {<<Out("stderr", -1, Null, 0, x)>> : x \in Line(name, level, text, t)}
    [] f = "syslog" -> {<<Out("syslog", -1, Null, Priority(level), SysLine(name, level, text, t))>>}
    [] f = "glib" -> {<<Out("glib", -1, name, GLevel(level), text)>>}
NameOf(m) == IF mods[m].hide THEN Null ELSE mods[m].name
\* The functions taking the module ignore the flag for now
Written2(f, m, level, text, t) == Written(f, mods[m].name, level, text, t) \cup Written(f, NameOf(m), level, text, t)
\* Where the message ends up
Delivered(m0, level, text, t) == LET m == Real(m0) IN
  IF ~Enabled(m0, level) THEN {<<>>}
  ELSE IF mods[m].hook = "custom" THEN {<<Out("hook", m, mods[m].name, level, text)>>}
  ELSE IF mods[m].hook # "none" THEN Written2(mods[m].hook, m, level, text, t)
  ELSE IF func2 = "custom" THEN {<<Out("func2", m, mods[m].name, level, text)>>}
  ELSE IF func2 # "default" THEN Written2(func2, m, level, text, t)
  ELSE Written(func, NameOf(m), level, text, t)
\* ... and several of them
DeliveredAll(d, m, level, texts, t) ==
  IF Delivered(m, level, "", t) = {<<>>} THEN d = <<>>
  ELSE Len(d) = Len(texts) /\ \A k \in 1..Len(d) : <<d[k]>> \in Delivered(m, level, texts[k], t)
DumpTexts(prefix, b) ==
  LET p == IF prefix = Null THEN "" ELSE prefix IN
  [k \in 1..((Len(b) + DumpWidth - 1) \div DumpWidth) |->
     LET off == (k - 1) * DumpWidth IN
     p \o Pad("0", 4, HEXN(off)) \o ": " \o DumpLine(SubSeq(b, off + 1, Min2(off + DumpWidth, Len(b))))]

-----------------------------------------------------------------------------
(* Configuration *)
Set(m, k, v) == mods' = [mods EXCEPT ![m][k] = v] /\ UNCHANGED <<func, func2, stamp, fmt, tid>>
SetFunc(f) == func' = f /\ UNCHANGED <<mods, func2, stamp, fmt, tid>>
SetFunc2(f) == func2' = f /\ UNCHANGED <<mods, func, stamp, fmt, tid>>
SetStamp(on) == stamp' = on /\ UNCHANGED <<mods, func, func2, fmt, tid>>
SetTid(on) == tid' = on /\ UNCHANGED <<mods, func, func2, stamp, fmt>>
SetFmt(f) == fmt' = (IF f = Null THEN DefaultFmt ELSE f) /\ UNCHANGED <<mods, func, func2, stamp, tid>>

LevelOf(s) ==
  IF Len(s) = 1 /\ \E d \in 0..5 : ToString(d) = s THEN CHOOSE d \in 0..5 : ToString(d) = s
  ELSE IF s # "" /\ \E i \in 1..6 : StartsWithText(LevelNames[i], s) THEN (CHOOSE i \in 1..6 : StartsWithText(LevelNames[i], s)) - 1
  ELSE -1
SameName(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : LET i == Len(a) - k + 1 IN LowerCh(Ch(a, i)) = LowerCh(Ch(b, i))
\* Known modules are 1..n. Which module and which level the option is for.
Option(opt, n) ==
  LET c == FindCh(opt, ":", 1) IN
  IF c = 0 THEN [m |-> IF LevelOf(opt) < 0 THEN -1 ELSE 0, level |-> LevelOf(opt)]
  ELSE LET level == LevelOf(SubSeq(opt, c + 1, Len(opt)))
           name == SubSeq(opt, 1, c - 1)
           named == {i \in 1..n : SameName(mods[i].name, name)}
       IN [m |-> IF level < 0 \/ named = {} THEN -1 ELSE CHOOSE i \in named : \A j \in named : i <= j, level |-> level]
ParseOption(opt, n) == LET o == Option(opt, n) IN IF o.m < 0 THEN UNCHANGED lvars ELSE Set(o.m, "level", o.level)

Types == {"stdout", "stderr", "glib", "syslog"}
TypeOf(f) == IF f \in Types THEN f ELSE "custom"
KnownType(t) == LowerText(t) \in Types
SetType(t, name) ==
  /\ func' = (IF KnownType(t) THEN LowerText(t) ELSE func)
  /\ \/ mods' = [mods EXCEPT ![0].name = IF name = Null THEN @ ELSE name]
     \/ ~KnownType(t) /\ mods' = mods
  /\ UNCHANGED <<func2, stamp, fmt, tid>>

\* What numbers in the environment mean
EnvNum == ("0" :> 0) @@ ("1" :> 1) @@ ("5" :> 5) @@ (" 4 " :> 4) @@ ("0x2" :> 2) @@ ("-1" :> -1) @@ ("-2" :> -2) @@ ("1000" :> 1000) @@ ("010" :> 8)
EnvBad == {"", "x", "3x", "99999999999", " "}
EnvLevel(s, d) == IF s \in DOMAIN EnvNum /\ EnvNum[s] >= INHERIT THEN EnvNum[s] ELSE d
EnvFlag(s) == s \in DOMAIN EnvNum /\ EnvNum[s] > 0
=============================================================================
