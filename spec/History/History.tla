------------------------------ MODULE History ------------------------------
(* Integer history: samples of a value which varies with time. All numbers   *)
(* are big ones.                                                             *)
EXTENDS Big, FiniteSets

VARIABLES ents,  \* samples, oldest first: [t, v]
          size,  \* maximum number of samples
          span,  \* maximum age
          now    \* the clock

hvars == <<ents, size, span, now>>
Last(s) == s[Len(s)]

\* those which are still fresh
Fresh(s, t) == SelectSeq(s, LAMBDA e : Le(Sub(t, e.t), span))
\* the newest n of those
Newest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

\* The value is changing linearly from one sample to the next
RECURSIVE Area(_)
Area(s) == IF Len(s) < 2 THEN Zero
           ELSE LET a == s[1] b == s[2] IN Add(Half(Mul(Sub(b.t, a.t), Add(a.v, b.v))), Area(Tail(s)))
\* The largest magnitude
RECURSIVE MaxAbs(_)
MaxAbs(s) == IF s = <<>> THEN Zero ELSE LET a == Big(FALSE, s[1].v.m) m == MaxAbs(Tail(s)) IN IF Lt(m, a) THEN a ELSE m
TimeSpan(s) == Sub(Last(s).t, s[1].t)
MaxInt64 == Big(FALSE, <<255, 255, 255, 255, 255, 255, 255, 127>>)
\* whether the integral may not fit into 64 bits, which is when the average is an approximate one
Long(s) == Lt(MaxInt64, Mul(BigInt(2), Mul(TimeSpan(s), MaxAbs(s))))
Error(s) == BigInt(4 * (Len(s) + 1))
InRange(m, s) == (\E i \in 1..Len(s) : Le(s[i].v, m)) /\ (\E i \in 1..Len(s) : Le(m, s[i].v))
\* m is the value averaged over time
IsMedian(m, s) == IF Len(s) = 1 THEN m = s[1].v
                  ELSE IF Long(s)
                  THEN InRange(m, s) /\ Le(Big(FALSE, Sub(Mul(m, TimeSpan(s)), Area(s)).m), Mul(Error(s), TimeSpan(s)))
                  ELSE IsQuotient(m, Area(s), TimeSpan(s))

HInit(n, i, t) == ents = <<>> /\ size = n /\ span = i /\ now = t
SetTime(t) == now' = t /\ UNCHANGED <<ents, size, span>>
AddSample(v) ==
  /\ LET f == Fresh(ents, now) IN
     ents' = IF f = <<>> THEN <<[t |-> now, v |-> v]>>
             ELSE IF Lt(Last(f).t, now) THEN Newest(Append(f, [t |-> now, v |-> v]), size)
             ELSE [f EXCEPT ![Len(f)].v = v]
  /\ UNCHANGED <<size, span, now>>
Clear == ents' = <<>> /\ UNCHANGED <<size, span, now>>
\* Asking forgets what has expired
Look == ents' = Fresh(ents, now) /\ UNCHANGED <<size, span, now>>
SizeIs(n) == n = Len(ents')
IntervalIs(i) == i = IF ents' = <<>> THEN Zero ELSE Sub(now, ents'[1].t)
MedianIs(m, default) == IF ents' = <<>> THEN m = default ELSE IsMedian(m, ents')

Bounded == Len(ents) <= size
Ordered == \A i \in 1..Len(ents) - 1 : Lt(ents[i].t, ents[i + 1].t)
\* an average is in between
\* (any number satisfying the definition is within the limits)
Sensible(range) == ents # <<>> => \A m \in range : IsMedian(BigInt(m), ents) => InRange(BigInt(m), ents)
Unique(range) == ents # <<>> => Cardinality({m \in range : IsMedian(BigInt(m), ents)}) = 1
=============================================================================
