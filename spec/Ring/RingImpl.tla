------------------------------ MODULE RingImpl ------------------------------
(* The circular buffer behind the ring: where the elements are. It refines   *)
(* Ring (without a free function). Its state graph covers every layout, and  *)
(* every operation in every layout, up to a bounded allocation size.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Elem, MaxAlloc, Reserved, Maxs
VARIABLES st, alloc, max, start, end, data
implvars == <<st, alloc, max, start, end, data>>

Undef == 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Norm(m) == IF m < 0 THEN -1 ELSE m
RSize(s, e, a) == IF s < 0 THEN 0 ELSE IF s >= e THEN a + e - s ELSE e - s
Size == RSize(start, end, alloc)
Contents == [i \in 1..Size |-> data[(start + i - 1) % alloc]]

Init == st = "none" /\ alloc = 0 /\ max = -1 /\ start = -1 /\ end = -1 /\ data = <<>>
Buf(n) == [i \in 0..(n - 1) |-> Undef]
New(res, m) ==
  /\ st = "none" /\ st' = "live" /\ alloc' = res /\ max' = Norm(m)
  /\ start' = -1 /\ end' = -1 /\ data' = Buf(res)

\* reallocated copy with the contents at the beginning
Copy(n) == [i \in 0..(n - 1) |-> IF i < Size THEN Contents[i + 1] ELSE Undef]
Refused(n) == max >= 0 /\ n > max
Grown(n) == LET g == Max2(n, alloc * 2) IN IF max > 0 /\ g > max THEN max ELSE g
Reserve(n) ==
  IF n <= alloc \/ Refused(n) THEN UNCHANGED <<alloc, start, end, data>>
  ELSE /\ alloc' = Grown(n) /\ data' = Copy(Grown(n))
       /\ start' = IF start < 0 THEN -1 ELSE 0
       /\ end' = IF start < 0 THEN -1 ELSE Size

PutX(x, front) ==
  LET n == Size + 1
      grow == n > alloc
      a == IF grow THEN Grown(n) ELSE alloc
      s == IF start < 0 THEN -1 ELSE IF grow THEN 0 ELSE start
      e == IF start < 0 THEN -1 ELSE IF grow THEN Size ELSE end
      d == IF grow THEN Copy(a) ELSE data
  IN IF Refused(n) THEN UNCHANGED implvars
     ELSE /\ alloc' = a
          /\ IF front
             THEN LET s1 == IF s >= 0 THEN (s + a - 1) % a ELSE 0 IN
                  /\ start' = s1 /\ end' = (IF s >= 0 THEN e ELSE 1 % a)
                  /\ data' = [d EXCEPT ![s1] = x]
             ELSE LET s1 == IF s < 0 THEN 0 ELSE s
                      e1 == IF s < 0 THEN 0 ELSE e IN
                  /\ start' = s1 /\ end' = (e1 + 1) % a
                  /\ data' = [d EXCEPT ![e1] = x]
          /\ UNCHANGED <<st, max>>

DropFront(n) ==
  IF n >= Size THEN start' = -1 /\ end' = -1
  ELSE start' = (start + n) % alloc /\ UNCHANGED end
DropBack(n) ==
  IF n >= Size THEN start' = -1 /\ end' = -1
  ELSE end' = (end + alloc - n) % alloc /\ UNCHANGED start
Rest == UNCHANGED <<st, alloc, max, data>>

Compact ==
  IF alloc > Size
  THEN /\ alloc' = Size /\ data' = Copy(Size)
       /\ start' = (IF Size > 0 THEN 0 ELSE -1) /\ end' = (IF Size > 0 THEN 0 ELSE -1)
       /\ UNCHANGED <<st, max>>
  ELSE UNCHANGED implvars
Flatten ==
  IF Size > 0 /\ start > 0 /\ start >= end
  THEN /\ data' = Copy(alloc) /\ start' = 0 /\ end' = Size % alloc
       /\ UNCHANGED <<st, alloc, max>>
  ELSE UNCHANGED implvars
SetMax(m) ==
  /\ max' = Norm(m)
  /\ IF m >= 0 /\ Size > m THEN DropFront(Size - m) ELSE UNCHANGED <<start, end>>
  /\ UNCHANGED <<st, alloc, data>>

Layout ==
  st = "live" =>
    /\ \/ start = -1 /\ end = -1
       \/ alloc > 0 /\ start \in 0..(alloc - 1) /\ end \in 0..(alloc - 1)
    /\ DOMAIN data = 0..(alloc - 1)
    /\ Size <= alloc
    /\ max >= 0 => Size <= max
    /\ \A i \in 1..Size : Contents[i] \in Elem
=============================================================================
