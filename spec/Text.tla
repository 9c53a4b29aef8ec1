-------------------------------- MODULE Text --------------------------------
(* Text as strings *)
EXTENDS Integers, Sequences, TLC
Ch(s, i) == SubSeq(s, i, i)
\* Printable characters 32..126
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
HexDigit(n) == Ch("0123456789abcdef", n + 1)
HEXDigit(n) == Ch("0123456789ABCDEF", n + 1)
Hex2T == [b \in 0..255 |-> HexDigit(b \div 16) \o HexDigit(b % 16)]
Hex2(b) == Hex2T[b]
HEX2(b) == HEXDigit(b \div 16) \o HEXDigit(b % 16)
RECURSIVE HEXN(_)
HEXN(n) == IF n < 16 THEN HEXDigit(n) ELSE HEXN(n \div 16) \o HEXDigit(n % 16)
RECURSIVE Pad(_, _, _)
Pad(c, n, s) == IF Len(s) >= n THEN s ELSE Pad(c, n, c \o s)
ShownT == [b \in 0..255 |-> IF b >= 32 /\ b <= 126 THEN Ch(Printable, b - 31) ELSE "."]
Shown(b) == ShownT[b]
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
LowerCh(c) == IF \E i \in 1..26 : Ch(Uppers, i) = c THEN Ch(Lowers, CHOOSE i \in 1..26 : Ch(Uppers, i) = c) ELSE c
RECURSIVE LowerText(_)
LowerText(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o LowerText(Tail(s))
\* one-based position of a character, zero if there's none
RECURSIVE FindCh(_, _, _)
FindCh(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindCh(s, c, i + 1)
StartsWithText(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E i \in 1..Len(s) - Len(p) + 1 : SubSeq(s, i, i + Len(p) - 1) = p

\* One line of hex dump: up to 16 bytes, then the same as characters
DumpWidth == 16
RECURSIVE DumpHex(_, _)
DumpHex(b, i) == IF i > DumpWidth THEN ""
                 ELSE (IF i = 1 THEN "" ELSE IF i = 9 THEN "  " ELSE " ")
                      \o (IF i <= Len(b) THEN Hex2(b[i]) ELSE "  ") \o DumpHex(b, i + 1)
RECURSIVE DumpChars(_, _)
DumpChars(b, i) == IF i > DumpWidth \/ i > Len(b) THEN ""
                   ELSE (IF i = 9 THEN " " ELSE "") \o Shown(b[i]) \o DumpChars(b, i + 1)
DumpLine(b) == DumpHex(b, 1) \o "    " \o DumpChars(b, 1)
=============================================================================
