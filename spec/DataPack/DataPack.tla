------------------------------ MODULE DataPack ------------------------------
(* Multi-byte numbers and tag-length-value encoding.                         *)
(*                                                                           *)
(* A number is a sequence of 7-bit groups, most significant first, all but   *)
(* the last one being marked by the continuation bit. The signed ones are    *)
(* two's complement.                                                         *)
EXTENDS Big, Bytes

MaxGroups == 10
\* 128^n and half of it
P == [n \in 0..MaxGroups + 3 |-> LET F[k \in 0..n] == IF k = 0 THEN BigInt(1) ELSE Mul(F[k - 1], BigInt(128)) IN F[n]]
H == [n \in 0..MaxGroups + 3 |-> Half(P[n])]
Two64 == Mul(P[9], BigInt(2))
Two63 == P[9]

\* v can be written as n groups
Fits(sg, v, n) == IF sg THEN Le(Neg(H[n]), v) /\ Lt(v, H[n]) ELSE ~v.neg /\ Lt(v, P[n])
\* ... as a 64-bit value
Fits64(sg, v) == IF sg THEN Le(Neg(Two63), v) /\ Lt(v, Two63) ELSE ~v.neg /\ Lt(v, Two64)
Size(sg, v) == CHOOSE n \in 1..MaxGroups : Fits(sg, v, n) /\ (n = 1 \/ ~Fits(sg, v, n - 1))

\* Well formed sequence of groups
Complete(b) == b # <<>> /\ b[Len(b)] < 128 /\ \A i \in 1..Len(b) - 1 : b[i] >= 128
RECURSIVE MagVal(_, _)
MagVal(b, acc) == IF b = <<>> THEN acc
                  ELSE MagVal(Tail(b), MagAdd(MagTrim(MagMulSmallAt(acc, 128, 1, 0)), MagInt(Head(b) % 128)))
Value(sg, b) == LET u == Big(FALSE, MagTrim(MagVal(b, <<>>)))
                IN IF sg /\ b[1] % 128 >= 64 THEN Sub(u, P[Len(b)]) ELSE u
\* b is v written as n groups
IsEncoding(sg, v, n, b) == Len(b) = n /\ Complete(b) /\ Value(sg, b) = v

\* What a decoder finds at the beginning of the data: the number of bytes, zero if there's no number there
RECURSIVE Span(_, _)
Span(b, i) == IF i > Len(b) \/ i > MaxGroups THEN 0 ELSE IF b[i] < 128 THEN i ELSE Span(b, i + 1)
Used(sg, b) == LET n == Span(b, 1) IN IF n = 0 \/ ~Fits64(sg, Value(sg, Prefix(b, n))) THEN 0 ELSE n
Decoded(sg, b) == Value(sg, Prefix(b, Used(sg, b)))

-----------------------------------------------------------------------------
(* Tag-length-value entries *)
MaxTag == BigInt(2147483647)
NoTlv == [tag |-> 0, off |-> 0, len |-> 0]
\* small number (which fits an integer here)
RECURSIVE SmallMag(_)
SmallMag(m) == IF m = <<>> THEN 0 ELSE Head(m) + 256 * SmallMag(Tail(m))
Small(v) == SmallMag(v.m)
\* Entry at the beginning of b: its tag, offset and length of the value
Tlv(b) ==
  LET t == Used(FALSE, b) IN
  IF t = 0 THEN NoTlv ELSE
  LET tag == Value(FALSE, Prefix(b, t)) r == After(b, t) IN
  IF tag = Zero \/ Lt(MaxTag, tag) THEN NoTlv ELSE
  LET n == Used(FALSE, r) IN
  IF n = 0 THEN NoTlv ELSE
  LET len == Value(FALSE, Prefix(r, n)) IN
  IF Lt(BigInt(Len(r) - n), len) THEN NoTlv
  ELSE [tag |-> Small(tag), off |-> t + n, len |-> Small(len)]

MaxTags == 31
TagIndex(tags, t) == IndexOf(Prefix(tags, MaxTags), t) + 1
NoVal == [off |-> -1, len |-> 0]
Result(r, vals) == [r |-> r, vals |-> vals]
\* r is a set of indices or the name of an error
RECURSIVE TlvsAt(_, _, _, _, _, _)
TlvsAt(b, at, tags, skip, seen, vals) ==
  IF at = Len(b) THEN Result(seen, vals) ELSE
  LET e == Tlv(After(b, at)) IN
  IF e.tag = 0 THEN Result({-1}, vals) ELSE
  LET i == TagIndex(tags, e.tag) nxt == at + e.off + e.len IN
  IF i = 0 THEN (IF skip THEN TlvsAt(b, nxt, tags, skip, seen, vals) ELSE Result({-3}, vals))
  ELSE IF i \in seen THEN Result({-2}, vals)
  ELSE TlvsAt(b, nxt, tags, skip, seen \cup {i}, [vals EXCEPT ![i] = [off |-> at + e.off, len |-> e.len]])
Tlvs(b, tags, skip) == TlvsAt(b, 0, tags, skip, {}, [i \in 1..Len(tags) |-> NoVal])

-----------------------------------------------------------------------------
(* A stream of entries: one end encodes, the other one decodes. There may be *)
(* garbage, too.                                                             *)
VARIABLES buf, pos
dvars == <<buf, pos>>
DInit == buf = <<>> /\ pos = 0
\* enc is the bytes of one entry
IsEntry(enc, tag, val) ==
  LET e == Tlv(enc) IN
  LET t == Size(FALSE, BigInt(tag)) n == Size(FALSE, BigInt(Len(val))) IN
  /\ e = [tag |-> tag, off |-> t + n, len |-> Len(val)]
  /\ enc = Prefix(enc, t + n) \o val
Append1(enc) == buf' = buf \o enc /\ UNCHANGED pos
Get(e) == /\ e = Tlv(After(buf, pos))
          /\ pos' = IF e.tag = 0 THEN pos ELSE pos + e.off + e.len
          /\ UNCHANGED buf
InRange == pos <= Len(buf)
=============================================================================
