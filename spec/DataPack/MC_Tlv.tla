------------------------------- MODULE MC_Tlv -------------------------------
(* Whatever has been encoded is read back, in order. *)
EXTENDS DataPack, TLC, Json
CONSTANTS N, Tags, ValSet, Junk
SomeTags == {1, 128}
MoreTags == {1, 2, 127, 128, 2147483647}
LongVal(n) == [i \in 1..n |-> i % 256]
SomeVals == {<<>>, <<0>>, LongVal(128)}
MoreVals == {<<>>, <<0>>, <<1, 1>>, LongVal(127), LongVal(128)}
\* not necessarily broken in combination with other things
SomeJunk == {<<0>>, <<128>>, <<1, 5>>}
Overlong(n) == <<1>> \o [i \in 1..n |-> IF i = 1 THEN 129 ELSE IF i = n THEN 0 ELSE 128]
MoreJunk == SomeJunk \cup {<<255, 255>>, Overlong(10), <<1, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127>>, <<136, 128, 128, 128, 0, 0>>}
VARIABLES op, sent, got, clean
vars == <<buf, pos, sent, got, clean>>
Lists == {<<>>, <<1>>, <<1, 128>>, <<2, 1>>, <<1, 1>>}
\* The encoding of a number
Enc(n) == CHOOSE b \in {<<n % 128>>, <<128 + ((n \div 128) % 128), n % 128>>,
     <<128 + ((n \div 268435456) % 128), 128 + ((n \div 2097152) % 128), 128 + ((n \div 16384) % 128), 128 + ((n \div 128) % 128), n % 128>>} :
          IsEncoding(FALSE, BigInt(n), Size(FALSE, BigInt(n)), b)
Entry(t, v) == Enc(t) \o Enc(Len(v)) \o v
Init == DInit /\ sent = <<>> /\ got = <<>> /\ clean = TRUE /\ op = <<>>
Next ==
  \/ \E t \in Tags, v \in ValSet :
       /\ Len(sent) < N /\ IsEntry(Entry(t, v), t, v) /\ Append1(Entry(t, v)) /\ sent' = Append(sent, <<t, v>>)
       /\ op' = <<"put", t, v>> /\ UNCHANGED <<got, clean>>
  \/ \E j \in Junk :
       /\ clean /\ Append1(j) /\ clean' = FALSE
       /\ op' = <<"junk", j>> /\ UNCHANGED <<got, sent>>
  \/ LET e == Tlv(After(buf, pos)) IN
       /\ Get(e) /\ op' = <<"get">> /\ UNCHANGED <<sent, clean>>
       /\ got' = IF e.tag = 0 THEN got ELSE Append(got, <<e.tag, SubSeq(buf, pos + e.off + 1, pos + e.off + e.len)>>)
  \/ \E t \in Lists, f \in 0..1 : pos = 0 /\ op' = <<"tlvs", f>> \o t /\ UNCHANGED vars
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
InOrder == clean => got = Prefix(sent, Len(got))
\* ... the whole lot
Whole == clean /\ pos = Len(buf) => got = sent
Always == clean => (Tlv(After(buf, pos)).tag = 0) = (pos = Len(buf))
\* Decoding everything at once agrees with that
Same == \A t \in Lists : clean => LET r == Tlvs(buf, t, TRUE).r IN
   r = {-2} \/ r = {TagIndex(t, sent[i][1]) : i \in {k \in 1..Len(sent) : Has(t, sent[k][1])}}
=============================================================================
