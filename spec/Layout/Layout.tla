------------------------------- MODULE Layout -------------------------------
(* Versions packed into one word, and arithmetics of addresses and sizes     *)
EXTENDS Big, TLC

\* 7 bits, 12 bits and 12 bits; what doesn't fit stays out of the others
Pack(a, b, c) == (a % 128) * 16777216 + (b % 4096) * 4096 + (c % 4096)
Major(v) == (v \div 16777216) % 128
Minor(v) == (v \div 4096) % 4096
Micro(v) == v % 4096
Text3(a, b, c) == ToString(a) \o "." \o ToString(b) \o "." \o ToString(c)
Less3(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))

\* The first multiple of n which is not less than v
Align(v, n) == ((v + n - 1) \div n) * n
\* ... same for big ones, n divides 256
BigAlign(v, n) ==
  LET low == MagDigit(v.m, 1) % n IN
  IF low = 0 THEN v ELSE Big(FALSE, MagAdd(v.m, MagInt(n - low)))
=============================================================================
