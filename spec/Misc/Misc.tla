-------------------------------- MODULE Misc --------------------------------
(* Hexadecimal conversion, number parsing and operations on blocks of bytes *)
EXTENDS Big, Bytes, Text

-----------------------------------------------------------------------------
(* Hexadecimal *)
HexChars(upper) == [n \in 0..15 |-> IF n < 10 THEN 48 + n ELSE IF upper THEN 55 + n ELSE 87 + n]
\* -1 if it's not a digit
DigitOf(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE -1
IsHex(c) == DigitOf(c) >= 0 /\ DigitOf(c) < 16
ToHex(b, upper) == [i \in 1..2 * Len(b) |-> LET v == b[(i + 1) \div 2] IN HexChars(upper)[IF i % 2 = 1 THEN v \div 16 ELSE v % 16]]
IsHexText(s) == s # <<>> /\ Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : IsHex(s[i])
FromHex(s) == [i \in 1..Len(s) \div 2 |-> 16 * DigitOf(s[2 * i - 1]) + DigitOf(s[2 * i])]

-----------------------------------------------------------------------------
(* Numbers *)
Spaces == AsciiSpace
VT == 11
Bases == {0} \cup 2..36
\* All characters are digits in that base
AllDigits(s, base) == s # <<>> /\ \A i \in 1..Len(s) : DigitOf(s[i]) >= 0 /\ DigitOf(s[i]) < base
RECURSIVE MagOf(_, _, _)
MagOf(s, base, acc) == IF s = <<>> THEN acc
                       ELSE MagOf(Tail(s), base, MagAdd(MagTrim(MagMulSmallAt(acc, base, 1, 0)), MagInt(DigitOf(Head(s)))))
HasX(s) == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {88, 120}
\* Without a sign
Unsigned(s, base) ==
  LET hex == base \in {0, 16} /\ HasX(s)
      b == IF hex THEN 16 ELSE IF base # 0 THEN base ELSE IF s # <<>> /\ s[1] = 48 THEN 8 ELSE 10
      d == IF hex THEN After(s, 2) ELSE s
  IN IF AllDigits(d, b) THEN [ok |-> TRUE, v |-> Big(FALSE, MagTrim(MagOf(d, b, <<>>)))] ELSE [ok |-> FALSE, v |-> Zero]
\* A complete number
Number(s, base) ==
  IF base \notin Bases \/ s = <<>> THEN [ok |-> FALSE, v |-> Zero, minus |-> FALSE]
  ELSE LET minus == s[1] = 45
           u == Unsigned(IF s[1] \in {43, 45} THEN Tail(s) ELSE s, base)
       IN [ok |-> u.ok, v |-> IF minus THEN Neg(u.v) ELSE u.v, minus |-> minus]
Two(n) == LET F[k \in 0..n] == IF k = 0 THEN BigInt(1) ELSE Mul(F[k - 1], BigInt(2)) IN F[n]
T31 == Two(31)
T32 == Two(32)
T63 == Two(63)
T64 == Two(64)
Fits(t, x) == CASE t = "int" -> Le(Neg(T31), x.v) /\ Lt(x.v, T31)
                [] t = "uint" -> ~x.minus /\ Lt(x.v, T32)
                [] t = "int64" -> Le(Neg(T63), x.v) /\ Lt(x.v, T63)
                [] t = "uint64" -> ~x.minus /\ Lt(x.v, T64)
Accepts(t, s, base) == LET x == Number(Strip(s, Spaces), base) IN x.ok /\ Fits(t, x)
Parsed(s, base) == Number(Strip(s, Spaces), base).v
\* Vertical tab in front of a number may or may not be a space
Vague(s) == LET p == Strip(s, Spaces) IN p # <<>> /\ p[1] = VT
VagueTail(s) == StripHead(Strip(s, Spaces), Spaces \cup {VT})

-----------------------------------------------------------------------------
(* Blocks. An absent one isn't the same thing as an empty one. *)
None == <<-1>>
Absent(b) == b = None
Same(a, b) == a = b
DataPrefix(a, b) == IF Absent(a) \/ Absent(b) THEN Absent(a) /\ Absent(b) ELSE StartsWith(a, b)
DataSuffix(a, b) == IF Absent(a) \/ Absent(b) THEN Absent(a) /\ Absent(b) ELSE EndsWith(a, b)
\* ... an absent prefix being an empty one
BytesPrefix(a, b) == ~Absent(a) /\ (Absent(b) \/ StartsWith(a, b))
BytesSuffix(a, b) == ~Absent(a) /\ (Absent(b) \/ EndsWith(a, b))
RangePrefix(a, b) == ~Absent(a) /\ ~Absent(b) /\ StartsWith(a, b)
RECURSIVE Bits(_, _, _)
Bits(a, b, k) == IF k = 0 THEN 0 ELSE (((a % 2) + (b % 2)) % 2) + 2 * Bits(a \div 2, b \div 2, k - 1)
XorT == [a \in 0..15 |-> [b \in 0..15 |-> Bits(a, b, 4)]]
XorByte(a, b) == 16 * XorT[a \div 16][b \div 16] + XorT[a % 16][b % 16]
Xor(a, b) == IF Absent(a) \/ Absent(b) THEN None ELSE [i \in 1..Min2(Len(a), Len(b)) |-> XorByte(a[i], b[i])]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
ConcatAll(s) == IF s = <<>> THEN None ELSE Concat(s)
=============================================================================
