---------------------------- MODULE LongHistory ----------------------------
(* A history of very many samples: the value is always twice the time, and   *)
(* there's a sample at each moment of a run. The average of a part of a line *)
(* is in the middle of it.                                                   *)
EXTENDS Integers, Sequences

VARIABLES runs,  \* [from, to], the oldest first
          size, span, now

lvars == <<runs, size, span, now>>
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1].to - s[1].from + 1 + Total(Tail(s))
\* What isn't older than t
RECURSIVE After(_, _)
After(s, t) == IF s = <<>> THEN <<>>
               ELSE IF s[1].to < t THEN After(Tail(s), t)
               ELSE IF s[1].from >= t THEN s ELSE <<[s[1] EXCEPT !.from = t]>> \o Tail(s)
\* The newest n
RECURSIVE Newest(_, _)
Newest(s, n) == LET k == Total(s) - n IN
                IF k <= 0 THEN s
                ELSE IF s[1].to - s[1].from + 1 <= k THEN Newest(Tail(s), n)
                ELSE <<[s[1] EXCEPT !.from = @ + k]>> \o Tail(s)
Fresh(s, t) == After(s, t - span)

LInit(n, i) == runs = <<>> /\ size = n /\ span = i /\ now = 0
Gap(d) == now' = now + d /\ UNCHANGED <<runs, size, span>>
\* k times: the time passes, a sample is added
Fill(k) == /\ now' = now + k
           /\ runs' = Newest(Fresh(Append(runs, [from |-> now + 1, to |-> now + k]), now + k), size)
           /\ UNCHANGED <<size, span>>
Forget == runs' = <<>> /\ UNCHANGED <<size, span, now>>
Look == runs' = Fresh(runs, now) /\ UNCHANGED <<size, span, now>>
Middle(s) == s[1].from + s[Len(s)].to
LBounded == Total(runs) <= size
LOrdered == \A i \in 1..Len(runs) : runs[i].from <= runs[i].to /\ (i > 1 => runs[i - 1].to < runs[i].from)
=============================================================================
