--------------------------- MODULE Trace_WeakRef ---------------------------
EXTENDS WeakRef, TraceBase
VARIABLES S, stack, pend, l
\* stack: what has been started; pend: operations of the threads, thread -> [op, done, r]
vars == <<S, stack, pend>>
Init == S = Start /\ stack = <<>> /\ pend = <<>> /\ l = 1
Ev == Tr[l]
Obs(X) == /\ X.dying = {}
          /\ \A i \in 1..Len(Ev.w) : Ev.w[i].t = Get(X, Ev.w[i].r)
          \* and there's nothing else holding the objects
          /\ \A i \in 1..Len(Ev.o) : Ev.o[i].n = X.refs[Ev.o[i].o]
          /\ {Ev.o[i].o : i \in 1..Len(Ev.o)} = {o \in O : Alive(X, o)}
Op ==
  /\ Ev.e = "op"
  /\ CASE Ev.op = "obj" -> S' = NewObj(S, Ev.o1)
       [] Ev.op = "oref" -> Alive(S, Ev.o1) /\ S' = RefObj(S, Ev.o1)
       [] Ev.op = "wnew" -> Ev.ok /\ ~There(S, Ev.r) /\ S' = NewWeak(S, Ev.r, Ev.o1)
       [] Ev.op = "wref" -> Ev.ok /\ There(S, Ev.r) /\ S' = RefWeak(S, Ev.r)
       [] Ev.op = "wunref" -> There(S, Ev.r) /\ S' = UnrefWeak(S, Ev.r)
       [] Ev.op = "wset" -> There(S, Ev.r) /\ S' = Set(S, Ev.r, Ev.o1)
       [] Ev.op = "wget" -> There(S, Ev.r) /\ Ev.got = Get(S, Ev.r) /\ S' = AfterGet(S, Ev.r)
       [] Ev.op = "null" -> Ev.ok /\ S' = S
  /\ Obs(S') /\ UNCHANGED <<stack, pend>>
\* Dropping a strong reference; the object tells when it goes
Begin == Ev.e = "ounref" /\ Alive(S, Ev.o1) /\ S' = UnrefObj(S, Ev.o1)
         /\ stack' = Append(stack, <<"ounref", Ev.o1>>) /\ UNCHANGED pend
GoneStep == Ev.e = "gone" /\ Ev.o1 \in S.dying /\ S' = Gone(S, Ev.o1) /\ Obs(S') /\ stack' = Append(stack, <<"gone", Ev.o1>>) /\ UNCHANGED pend
Pop(k) == stack # <<>> /\ stack[Len(stack)][1] = k /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
-----------------------------------------------------------------------------
(* Operations of threads take effect somewhere between their beginning and their end *)
Effect(p) ==
  CASE p.op = "get" -> [s |-> AfterGet(S, p.r), r |-> Get(S, p.r)]
    [] p.op = "set" -> [s |-> Set(S, p.r, p.o), r |-> 0]
    [] p.op = "oref" -> [s |-> RefObj(S, p.o), r |-> 0]
    [] p.op = "unref" -> [s |-> [UnrefObj(S, p.o) EXCEPT !.dying = {}], r |-> 0]
    [] p.op = "wref" -> [s |-> RefWeak(S, p.r), r |-> 0]
    [] p.op = "wunref" -> [s |-> UnrefWeak(S, p.r), r |-> 0]
Inv1 == Ev.e = "inv" /\ Ev.th \notin DOMAIN pend
        /\ pend' = [t \in DOMAIN pend \cup {Ev.th} |-> IF t = Ev.th THEN [op |-> Ev.op, r |-> Ev.r, o |-> Ev.o1, done |-> FALSE, res |-> 0] ELSE pend[t]]
        /\ UNCHANGED <<S, stack>>
Lin == \E t \in DOMAIN pend : ~pend[t].done /\ LET f == Effect(pend[t]) IN
          S' = f.s /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = f.r] /\ UNCHANGED stack
Res1 == Ev.e = "res" /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].done /\ Ev.got = pend[Ev.th].res
        /\ pend' = [t \in DOMAIN pend \ {Ev.th} |-> pend[t]] /\ UNCHANGED <<S, stack>>
\* Threads start with what was prepared for them
Exec == Ev.e = "exec" /\ pend' = <<>> /\ stack' = <<>>
        /\ S' = [Start EXCEPT !.refs = [o \in O |-> IF o <= Len(Ev.refs) THEN Ev.refs[o] ELSE 0],
                              !.w = [r \in R |-> IF r <= Len(Ev.w) THEN Ev.w[r] ELSE [refs |-> 0, t |-> 0]]]
Step ==
  \/ Exec
  \/ Ev.e = "done" /\ Ev.more = 0 /\ pend = <<>> /\ (\A o \in O : S.refs[o] = 0) /\ (\A r \in R : ~There(S, r)) /\ UNCHANGED vars
  \/ Ev.e = "scn" /\ S' = Start /\ stack' = <<>> /\ pend' = <<>>
  \/ Op
  \/ Begin
  \/ GoneStep
  \/ Ev.e = "goneret" /\ Pop("gone") /\ S.dying = {} /\ UNCHANGED <<S, pend>>
  \/ Ev.e = "ret" /\ Pop("ounref") /\ Obs(S) /\ UNCHANGED <<S, pend>>
  \/ Inv1
  \/ Res1
  \/ Ev.e = "joined" /\ pend = <<>> /\ Obs(S) /\ UNCHANGED vars
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ (\A o \in O : S.refs[o] = 0) /\ (\A r \in R : ~There(S, r)) /\ UNCHANGED vars
Next == \/ l <= Len(Tr) /\ Step /\ l' = l + 1
        \/ l <= Len(Tr) /\ Lin /\ l' = l
Progress == Reached(l)
=============================================================================
