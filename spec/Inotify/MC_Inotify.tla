----------------------------- MODULE MC_Inotify -----------------------------
(* The library as it does it, in every bounded history of calls and events *)
EXTENDS Inotify, TLC, Json
CONSTANTS H, Masks, MaxQ, MaxRefs, MaxOps, Count, FsOps, MaxDispatch
VARIABLES S, loc, bz, op, n, nd
vars == <<S, loc, bz, n, nd>>
Init == S = Start /\ loc = 1 /\ bz = {} /\ op = <<>> /\ n = 0 /\ nd = 0
Fresh(X) == CHOOSE k \in 1..10 : /\ ~KernelHas(X, k) /\ k \notin X.gone /\ (\A i \in WS : X.w[i].k # k)
                                 /\ (\A j \in 1..Len(X.q) : X.q[j].k # k) /\ (\A j \in 1..Len(X.buf) : X.buf[j].k # k) /\ X.cur.ev.k # k
                                 /\ \A m \in 1..k - 1 : KernelHas(X, m) \/ m \in X.gone \/ (\E i \in WS : X.w[i].k = m)
                                         \/ (\E j \in 1..Len(X.q) : X.q[j].k = m) \/ (\E j \in 1..Len(X.buf) : X.buf[j].k = m) \/ X.cur.ev.k = m
\* Kernel watches nobody needs are removed. The one being dispatched is still there.
Unneeded(X) == {d \in D : X.kw[d].k # 0 /\ ~Watched(X, X.kw[d].k) /\ ~(X.cur.at # <<>> /\ ~There(X, X.cur.at[1]) /\ X.cur.ev.k = X.kw[d].k)}
RECURSIVE RmAll(_, _)
RmAll(X, ds) == IF ds = {} THEN X ELSE LET d == CHOOSE x \in ds : TRUE IN RmAll(SysRm(X, X.kw[d].k), ds \ {d})
Settle(X) == LET Y == RmAll(X, Unneeded(X)) IN IF Y.fd /\ ~Used(Y) /\ ~Y.pump THEN SysClose(Y) ELSE Y
MNew(X, i, d, m) ==
  LET X1 == IF X.fd THEN X ELSE SysInit(X)
  IN IF d \in X.ex THEN NewWatch(SysAdd(X1, d, m \cup {MASK_ADD}, IF X1.kw[d].k # 0 THEN X1.kw[d].k ELSE Fresh(X1)), i, d, m)
     ELSE Settle([X1 EXCEPT !.adds = <<>>])
Client == ~S.pump \/ S.cur.at # <<>>
Step1 == IF Count THEN 1 ELSE 0
Bits(m) == [i \in 1..12 |-> IF i - 1 \in m THEN 1 ELSE 0]
Top == S.cur.at = <<>>
Busy(X) == IF X.pump THEN {i \in WS : There(S, i) /\ ~There(X, i)} ELSE {}
HasRoom(X) == Len(X.q) <= MaxQ
Do(X, o) == /\ Client /\ HasRoom(X) /\ n < MaxOps
            /\ S' = X /\ op' = o /\ n' = n + Step1 /\ bz' = bz \cup Busy(X) /\ UNCHANGED <<loc, nd>>
Fs(X, o) == Client /\ S.fd /\ X # S /\ HasRoom(X) /\ n < MaxOps /\ S' = X /\ op' = o /\ n' = n + Step1 /\ UNCHANGED <<bz, nd>>
Free(h) == \A i \in WS : h \notin S.w[i].h
Other(d) == CHOOSE e \in D : e # d
First(T) == CHOOSE p \in T : \A r \in T : p[1] < r[1] \/ (p[1] = r[1] /\ p[2] <= r[2])
Lib ==
  /\ S.pump /\ S.cur.at = <<>> /\ op' = <<>> /\ UNCHANGED <<loc, n>>
  /\ \/ S.cur.todo # {} /\ nd < MaxDispatch /\ LET p == First(S.cur.todo) IN S' = Enter(S, p[1], p[2]) /\ nd' = nd + 1 /\ UNCHANGED bz
     \/ S.cur.todo = {} /\ S.buf # <<>> /\ S' = Pop(S, 1) /\ UNCHANGED <<bz, nd>>
     \/ S.cur.todo = {} /\ S.buf = <<>> /\ S.q # <<>> /\ S' = Read(S, Len(S.q), [i \in 1..Len(S.q) |-> S.q[i].c]) /\ UNCHANGED <<bz, nd>>
     \/ S.cur.todo = {} /\ S.buf = <<>> /\ S.q = <<>> /\ S' = Settle([S EXCEPT !.pump = FALSE, !.cur = Idle]) /\ bz' = {} /\ nd' = 0
Next ==
  \/ \E i \in WS, d \in D, m \in Masks : ~There(S, i) /\ i \notin bz /\ (\A j \in WS : j < i => There(S, j) \/ j \in bz) /\ Do(MNew(S, i, d, m), <<"new", i, d, m>>)
  \/ \E i \in WS : There(S, i) /\ S.w[i].refs < MaxRefs /\ Do(RefWatch(S, i), <<"ref", i>>)
  \/ \E i \in WS : There(S, i) /\ Do(Settle(UnrefWatch(S, i)), <<"unref", i>>)
  \/ \E i \in WS : There(S, i) /\ Do(Settle(DestroyWatch(S, i)), <<"destroy", i>>)
  \/ \E i \in WS, h \in H : There(S, i) /\ Free(h) /\ (\A g \in H : g < h => ~Free(g)) /\ Do(AddHandler(S, i, h), <<"addh", i, h>>)
  \/ \E i \in WS, h \in H : There(S, i) /\ h \in S.w[i].h /\ Do(RemoveHandler(S, i, h), <<"rmh", i, h>>)
  \/ "attr" \in FsOps /\ \E d \in S.ex : Fs(AttribSelf(S, d), <<"attrself", d>>) /\ UNCHANGED loc
  \/ "move" \in FsOps /\ loc \in S.ex /\ Other(loc) \in S.ex /\ loc' = Other(loc) /\ Fs(Move(S, loc, "f", Other(loc), "f", FALSE), <<"move", loc, "f", Other(loc), "f">>)
  \/ "rmdir" \in FsOps /\ \E d \in S.ex : d # loc /\ Fs(RemoveDir(S, d), <<"rmdir", d>>) /\ UNCHANGED loc
  \/ Client /\ n < MaxOps /\ \E d \in D \ S.ex : S' = MakeDir(S, d) /\ op' = <<"mkdir", d>> /\ n' = n + Step1 /\ UNCHANGED <<loc, bz, nd>>
  \/ Top /\ ~S.pump /\ S.q # <<>> /\ S' = [S EXCEPT !.pump = TRUE] /\ op' = <<"pump">> /\ UNCHANGED <<loc, bz, n, nd>>
  \/ S.cur.at # <<>> /\ S' = Settle(Leave(S)) /\ op' = <<"ret">> /\ UNCHANGED <<loc, bz, n, nd>>
  \/ Lib
View == vars
Edge == PrintT(ToJson([s |-> ToString(vars), op |-> op', t |-> ToString(vars')]))
-----------------------------------------------------------------------------
QuietOutside == ~S.pump => Quiet(S)
\* Nobody is told about something he isn't interested in
OnlyMine == S.cur.at # <<>> => LET p == S.cur.at IN There(S, p[1]) /\ S.w[p[1]].live => S.w[p[1]].k = S.cur.ev.k
NeverTwice == S.cur.at # <<>> => S.cur.at \notin S.cur.todo
NoObligationsToTheDead == \A p \in S.cur.todo : Live(S, p[1]) /\ p[2] \in S.w[p[1]].h
\* Whatever happens to a watched directory reaches the queue
M1 == {{2, 6, 7, 10}}
M2 == {{2, 6}, {7, 10}}
M3 == {{2, 10}, {2, 6}}
=============================================================================
