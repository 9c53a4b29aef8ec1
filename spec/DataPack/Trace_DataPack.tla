--------------------------- MODULE Trace_DataPack ---------------------------
EXTENDS DataPack, TraceBase
VARIABLE l
Init == DInit /\ l = 1
Ev == Tr[l]
Look == UNCHANGED dvars
Val(sg, s) == IF sg THEN S64(s) ELSE U64(s)
\* One encoder call: requested number of groups, returned value, what it has written
EncOk == LET v == Val(Ev.sg, Ev.v) n == Size(Ev.sg, v) IN
   /\ Ev.size = n /\ Ev.r = n
   /\ IsEncoding(Ev.sg, v, n, Ev.b)
   \* with every larger size
   /\ \A k \in 1..Len(Ev.more) : Ev.more[k].r = n + k /\ IsEncoding(Ev.sg, v, n + k, Ev.more[k].b)
   /\ Len(Ev.more) = MaxGroups - n
   /\ Ev.none = 0
DecOk == LET n == Used(Ev.sg, Ev.b) IN
   /\ Ev.adv = n /\ Ev.r = (n > 0)
   /\ IF n > 0 THEN Val(Ev.sg, Ev.v) = Decoded(Ev.sg, Ev.b) ELSE Ev.same
   \* with no place for the result
   /\ Ev.advnull = n /\ Ev.rnull = (n > 0)
   \* everything has to be consumed
   /\ Ev.r2 = (n > 0 /\ n = Len(Ev.b)) /\ Ev.r2null = Ev.r2
   /\ IF Ev.r2 THEN Ev.v2 = Ev.v ELSE Ev.same2
GetOk == LET e == Tlv(After(buf, pos)) IN
   /\ Get(e) /\ Ev.r = e.tag
   /\ Ev.adv = (IF e.tag = 0 THEN 0 ELSE e.off + e.len)
   /\ e.tag # 0 /\ Ev.want => Ev.len = e.len /\ (e.len > 0 => Ev.off = e.off)
TlvsOk == LET x == Tlvs(buf, Ev.tags, Ev.skip) IN
   /\ Look
   /\ IF x.r \subseteq 1..MaxTags
      THEN /\ {i \in 1..Len(Ev.mask) : Ev.mask[i] = 1} = x.r
           /\ Ev.err = 0
           /\ \A i \in 1..Len(Ev.vals) : /\ Ev.vals[i].len = x.vals[i].len
                                         /\ Ev.vals[i].off = x.vals[i].off
      ELSE x.r = {Ev.err}
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "enc" -> Look /\ EncOk
       [] Ev.op = "dec" -> Look /\ DecOk
       [] Ev.op = "null" -> Look /\ Ev.r
       [] Ev.op = "put" -> /\ IsEntry(Ev.b, Ev.tag, Ev.val) /\ Append1(Ev.b)
                           /\ Ev.size = Len(Ev.b) /\ Ev.r = Ev.size
       [] Ev.op = "size" -> /\ Look
                            /\ U64(Ev.r) = Add(Add(U64(Ev.len), BigInt(Size(FALSE, U64(Ev.len)))), BigInt(Size(FALSE, BigInt(Ev.tag))))
       [] Ev.op = "junk" -> Append1(Ev.b)
       [] Ev.op = "get" -> GetOk
       [] Ev.op = "tlvs" -> TlvsOk
Step ==
  \/ Ev.e = "scn" /\ buf' = <<>> /\ pos' = 0
  \/ Op
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ Look
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
