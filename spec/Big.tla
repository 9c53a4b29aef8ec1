-------------------------------- MODULE Big --------------------------------
(* Integers of any size, which TLC's own integers are not: sign and          *)
(* magnitude, the latter being a sequence of base 256 digits, least          *)
(* significant first and without leading zeros.                              *)
EXTENDS Integers, Sequences

RECURSIVE MagTrim(_)
MagTrim(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN MagTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m
MagDigit(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MagMax(a, b) == IF a > b THEN a ELSE b
RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MagCmpAt(a, b, Len(a))
RECURSIVE MagAddAt(_, _, _, _)
MagAddAt(a, b, i, c) ==
  IF i > MagMax(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == MagDigit(a, i) + MagDigit(b, i) + c IN <<s % 256>> \o MagAddAt(a, b, i + 1, s \div 256)
MagAdd(a, b) == MagAddAt(a, b, 1, 0)
RECURSIVE MagSubAt(_, _, _, _)
MagSubAt(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - MagDigit(b, i) - c IN <<s % 256>> \o MagSubAt(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MagSub(a, b) == MagTrim(MagSubAt(a, b, 1, 0))   \* a >= b
RECURSIVE MagMulSmallAt(_, _, _, _)
MagMulSmallAt(a, k, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == a[i] * k + c IN <<s % 256>> \o MagMulSmallAt(a, k, i + 1, s \div 256)
RECURSIVE MagMulAt(_, _, _)
MagMulAt(a, b, j) == IF j > Len(b) THEN <<>>
                  ELSE MagAdd(MagTrim(MagMulSmallAt(a, b[j], 1, 0)), LET r == MagMulAt(a, b, j + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MagMul(a, b) == MagTrim(MagMulAt(a, b, 1))
RECURSIVE MagHalfAt(_, _, _)
MagHalfAt(a, i, c) == IF i = 0 THEN <<>> ELSE MagHalfAt(a, i - 1, (c * 256 + a[i]) % 2) \o <<(c * 256 + a[i]) \div 2>>
MagHalf(a) == MagTrim(MagHalfAt(a, Len(a), 0))

Big(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
Zero == Big(FALSE, <<>>)
RECURSIVE MagInt(_)
MagInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o MagInt(n \div 256)
BigInt(n) == Big(n < 0, MagInt(IF n < 0 THEN -n ELSE n))
Neg(a) == Big(~a.neg, a.m)
Add(a, b) == IF a.neg = b.neg THEN Big(a.neg, MagAdd(a.m, b.m))
             ELSE IF MagCmp(a.m, b.m) >= 0 THEN Big(a.neg, MagSub(a.m, b.m))
             ELSE Big(b.neg, MagSub(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Big(a.neg # b.neg, MagMul(a.m, b.m))
\* half of a number, rounded towards zero
Half(a) == Big(a.neg, MagHalf(a.m))
Lt(a, b) == IF a.neg # b.neg THEN a.neg ELSE IF a.neg THEN MagCmp(a.m, b.m) > 0 ELSE MagCmp(a.m, b.m) < 0
Le(a, b) == a = b \/ Lt(a, b)
\* q is a/b rounded towards zero (b > 0)
IsQuotient(q, a, b) == LET r == Sub(a, Mul(q, b)) IN MagCmp(r.m, b.m) < 0 /\ (r = Zero \/ r.neg = a.neg)
\* From four 16-bit limbs, least significant first
RECURSIVE MagLimbs(_)
MagLimbs(s) == IF s = <<>> THEN <<>> ELSE <<Head(s) % 256, Head(s) \div 256>> \o MagLimbs(Tail(s))
U64(s) == Big(FALSE, MagTrim(MagLimbs(s)))
\* ... as a two's complement number
S64(s) == IF s[4] < 32768 THEN U64(s)
          ELSE Big(TRUE, MagAdd(<<1>>, MagTrim(MagLimbs([i \in 1..4 |-> 65535 - s[i]]))))
=============================================================================
