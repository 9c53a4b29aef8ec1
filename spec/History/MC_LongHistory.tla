-------------------------- MODULE MC_LongHistory --------------------------
(* The runs are nothing but a short description of the samples: they are     *)
(* moved together with the samples they describe.                            *)
EXTENDS LongHistory
CONSTANTS Size, Span, MaxNow
VARIABLE samples  \* when they were taken, in order

Keep(s) == SelectSeq(s, LAMBDA t : now' - t <= span)
RECURSIVE Taken(_, _)
Taken(s, k) == IF k = 0 THEN s
               ELSE LET t == now' - k + 1
                        f == Append(SelectSeq(s, LAMBDA x : t - x <= span), t) IN
                    Taken(IF Len(f) > size THEN Tail(f) ELSE f, k - 1)
RECURSIVE Spelled(_)
Spelled(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..(s[1].to - s[1].from + 1) |-> s[1].from + i - 1] \o Spelled(Tail(s))

Init == LInit(Size, Span) /\ samples = <<>>
Next == \/ \E d \in 1..Span + 1 : now + d <= MaxNow /\ Gap(d) /\ samples' = samples
        \/ \E k \in 1..Size + 1 : now + k <= MaxNow /\ Fill(k) /\ samples' = Taken(samples, k)
        \/ Forget /\ samples' = <<>>
        \/ Look /\ samples' = Keep(samples)
Described == Spelled(runs) = samples
RECURSIVE Area2(_)
Area2(s) == IF Len(s) < 2 THEN 0 ELSE (s[2] - s[1]) * 2 * (s[1] + s[2]) + Area2(Tail(s))
\* the same as what the integral over all of them gives
Average == Len(samples) > 1 => Area2(samples) = 2 * Middle(runs) * (samples[Len(samples)] - samples[1])
=============================================================================
