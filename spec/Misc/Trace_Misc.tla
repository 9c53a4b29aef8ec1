----------------------------- MODULE Trace_Misc -----------------------------
EXTENDS Misc, TraceBase
VARIABLE l
Init == l = 1
Ev == Tr[l]
\* Text t, its beginning of length n has been converted
UnhexOk == LET t == Prefix(Ev.t, Ev.n) IN
   /\ Ev.r = IsHexText(t) /\ Ev.br = IsHexText(t)
   /\ Ev.r => Ev.b = FromHex(t) /\ Ev.bb = FromHex(t)
   \* implied length
   /\ Ev.ir = IsHexText(Ev.t) /\ (Ev.ir => Ev.ib = FromHex(Ev.t))
HexOk == Ev.lo = ToHex(Ev.b, FALSE) /\ Ev.up = ToHex(Ev.b, TRUE) /\ Ev.lod = Ev.lo /\ Ev.upd = Ev.up
DumpOk == Ev.r = Min2(Len(Ev.b), DumpWidth) /\ Ev.s = DumpLine(Prefix(Ev.b, DumpWidth))
Val(t, v) == IF t \in {"int", "int64"} THEN S64(v) ELSE U64(v)
Types == <<"int", "uint", "int64", "uint64">>
ResultOk(p, t, s) ==
   /\ p.r = Accepts(t, s, Ev.base) /\ p.rn = p.r
   /\ IF p.r THEN Val(t, p.v) = Parsed(s, Ev.base) ELSE p.same
Refused(p) == ~p.r /\ ~p.rn /\ p.same
ParseOk == Ev.intact /\ \A i \in 1..4 : LET p == Ev.p[i] IN
   IF Ev.absent THEN Refused(p)
   ELSE IF Vague(Ev.s) THEN Refused(p) \/ ResultOk(p, Types[i], VagueTail(Ev.s))
   ELSE ResultOk(p, Types[i], Ev.s)
PairOk ==
   /\ Ev.eq = Same(Ev.a, Ev.b)
   /\ Ev.pre = DataPrefix(Ev.a, Ev.b) /\ Ev.suf = DataSuffix(Ev.a, Ev.b)
   /\ Ev.beq = Same(Ev.a, Ev.b) /\ Ev.beqd = Same(Ev.a, Ev.b)
   /\ Ev.bpre = BytesPrefix(Ev.a, Ev.b) /\ Ev.bsuf = BytesSuffix(Ev.a, Ev.b)
   /\ Ev.xor = Xor(Ev.a, Ev.b)
   /\ Ev.rpre = RangePrefix(Ev.a, Ev.b) /\ Ev.rskip = Ev.rpre
   /\ Ev.rpos = IF Ev.rpre THEN Len(Ev.b) ELSE 0
   /\ Ev.intact
ConvOk ==
   /\ Ev.fb = (IF Absent(Ev.a) THEN <<>> ELSE Ev.a)
   /\ Ev.new = Ev.fb
   /\ Ev.copy = Ev.a /\ Ev.var = Ev.a /\ Ev.rng = Ev.fb /\ Ev.rsize = Len(Ev.fb)
   /\ Ev.str = SubSeq(Ev.fb, 1, IF 0 \in Elems(Ev.fb) THEN IndexOf(Ev.fb, 0) ELSE Len(Ev.fb))
   /\ Ev.floating /\ Ev.intact
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "unhex" -> UnhexOk
       [] Ev.op = "hex" -> HexOk
       [] Ev.op = "hexdump" -> DumpOk
       [] Ev.op = "parse" -> ParseOk
       [] Ev.op = "pair" -> PairOk
       [] Ev.op = "concat" -> Ev.r = ConcatAll(Ev.s) /\ Ev.intact
       [] Ev.op = "conv" -> ConvOk
       [] Ev.op = "null" -> Ev.r
Step ==
  \/ Ev.e = "scn"
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
