---------------------------- MODULE Trace_Layout ----------------------------
EXTENDS Layout, TraceBase
VARIABLE l
Ev == Tr[l]
Init == l = 1
VersionOk == /\ Ev.v = Pack(Ev.a, Ev.b, Ev.c)
             /\ Ev.back = <<Major(Ev.v), Minor(Ev.v), Micro(Ev.v)>>
             /\ Ev.pack2 = Ev.v
\* What has been compiled is what is running, and it knows its ancestors
CurrentOk == LET v == Ev.current IN
  /\ Ev.lib = v /\ Ev.str = Text3(v[1], v[2], v[3])
  /\ Ev.word = Pack(v[1], v[2], v[3]) /\ Ev.libword = Ev.word
  /\ Ev.usable
  /\ \A i \in 1..Len(Ev.known) : Ev.known[i] = Pack(1, 0, 68 + i) /\ Ev.known[i] <= Ev.word
  \* the preprocessor compares them too
  /\ Ev.pp = <<TRUE, TRUE, FALSE, TRUE>>
AlignOk == U64(Ev.r) = BigAlign(U64(Ev.v), Ev.n)
CastOk == Ev.back = 0 /\ \A i \in 1..Len(Ev.offs) : Ev.offs[i] = Ev.diffs[i]
Step ==
  \/ Ev.e = "scn"
  \/ Ev.e = "op" /\ CASE Ev.op = "version" -> VersionOk
                      [] Ev.op = "current" -> CurrentOk
                      [] Ev.op = "align" -> AlignOk
                      [] Ev.op = "cast" -> CastOk
                      [] Ev.op = "packed" -> Ev.size = Ev.sum
                      [] Ev.op = "free" -> Ev.freed = <<Ev.size>> /\ Ev.same
  \/ Ev.e = "end" /\ Ev.leak = 0
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
