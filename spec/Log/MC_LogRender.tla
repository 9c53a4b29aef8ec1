---------------------------- MODULE MC_LogRender ----------------------------
EXTENDS Log, Json
VARIABLES op
Fmts == {Null, "", "x ", "[%H:%M:%S] ", "%%", "%Y%m%d%H%M%S.............", "%Y%m%d%H%M%S..................", "%Y%m%d%H%M%S.............%%%%%d"}
NameSet == {Null, "", "dflt", "m1"}
Flag(b) == IF b THEN 1 ELSE 0
CONSTANTS Funcs, Funcs2
None2 == {"default"}
Some2 == {"default", "stdout", "syslog"}
AllFuncs == {"stdout", "stderr", "syslog", "glib", "custom", "null"}
SomeFuncs == {"stdout", "syslog", "glib"}
Init == LInit(1, 3) /\ op = <<>>
Next ==
  \/ \E f \in Funcs : SetFunc(f) /\ op' = <<"func", f>>
  \/ \E f \in Funcs2 : SetFunc2(f) /\ op' = <<"func2", f>>
  \/ \E b \in BOOLEAN : SetStamp(b) /\ op' = <<"stamp", Flag(b)>>
  \/ \E b \in BOOLEAN : SetTid(b) /\ op' = <<"tid", Flag(b)>>
  \/ \E f \in Fmts : SetFmt(f) /\ op' = <<"fmt", f>>
  \/ \E n \in NameSet : Set(0, "name", n) /\ op' = <<"name", 0, n>>
  \/ \E b \in BOOLEAN : Set(0, "hide", b) /\ op' = <<"hide", 0, Flag(b)>>
View == lvars
Edge == PrintT(ToJson([s |-> ToString(lvars), op |-> op', t |-> ToString(lvars')]))
\* The text is always there
Faithful == \A m \in -1..1, l \in {1, 3} : \A d \in Delivered(m, l, "some text", 77) :
    (func # "null" \/ func2 # "default") => Len(d) = 1 /\ Contains(d[1].text, "some text")
=============================================================================
