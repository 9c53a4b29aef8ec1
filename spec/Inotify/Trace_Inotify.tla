---------------------------- MODULE Trace_Inotify ----------------------------
EXTENDS Inotify, TraceBase
VARIABLES S, top, l
vars == <<S, top>>
Init == S = Start /\ top = 0 /\ l = 1
Ev == Tr[l]
Bits(x) == {x[i] : i \in 1..Len(x)}
\* Numbers of kernel watches are unique
FreshK(k) == /\ ~KernelHas(S, k) /\ k \notin S.gone /\ \A i \in WS : S.w[i].k # k
             /\ \A j \in 1..Len(S.q) : S.q[j].k # k
\* System calls made by the library
Sys ==
  /\ Ev.e = "sys"
  /\ CASE Ev.c = "init" -> ~S.fd /\ (S' = IF Ev.ok THEN SysInit(S) ELSE S)
       [] Ev.c = "close" -> S.fd /\ ~Used(S) /\ S' = SysClose(S)
       [] Ev.c = "add" -> /\ S.fd
                          /\ IF Ev.wd > 0
                             THEN /\ Ev.d \in S.ex /\ S' = SysAdd(S, Ev.d, Bits(Ev.m), Ev.wd)
                                  /\ IF S.kw[Ev.d].k # 0 THEN Ev.wd = S.kw[Ev.d].k ELSE FreshK(Ev.wd)
                             ELSE (Ev.d \notin S.ex \/ Ev.fault) /\ S' = SysAddFailed(S, Ev.d, Bits(Ev.m))
       \* an active one or the one removed by the kernel. The kernel has nothing against unknown ones.
       [] Ev.c = "rm" -> /\ S.fd /\ ~Watched(S, Ev.wd) /\ Ev.wd # -7
                         /\ (KernelHas(S, Ev.wd) <=> Ev.ok)
                         /\ S' = SysRm(S, Ev.wd)
       [] Ev.c = "read" -> /\ S.fd /\ S.pump
                           /\ LET n == Len(Ev.l) IN
                                /\ n <= Len(S.q)
                                /\ \A i \in 1..n : LET r == Ev.l[i] IN
                                      r.wd = S.q[i].k /\ Bits(r.m) = S.q[i].m /\ r.n = S.q[i].n /\ (r.c # 0) = (S.q[i].c # 0)
                                /\ S' = Read(S, n, [i \in 1..n |-> Ev.l[i].c])
       \* Reading fails when it's told to, or (without waiting) if there's nothing to read
       [] Ev.c = "readfail" -> /\ S.fd /\ S.pump
                               /\ IF Ev.err = "injected" THEN S' = [S EXCEPT !.broken = TRUE]
                                  ELSE Ev.err = "again" /\ S.q = <<>> /\ S' = S
  /\ UNCHANGED top
Plain(m) == m \ {MASK_ADD}
\* The watch has been created, or not
Created(i, d, m, r) ==
  IF r THEN /\ Len(S.adds) = 1 /\ S.adds[1].ok /\ S.adds[1].d = d /\ Plain(S.adds[1].m) = Plain(m)
            /\ ~There(S, i) /\ S' = NewWatch(S, i, d, m)
       ELSE \* there must be a reason
            /\ IF S.adds = <<>> THEN Ev.fault ELSE Len(S.adds) = 1 /\ ~S.adds[1].ok /\ S.adds[1].d = d
            /\ S' = [S EXCEPT !.adds = <<>>]
\* What the client does. Those that return nothing are recorded before the call.
OpStep ==
  CASE Ev.op = "new" -> Created(Ev.w, Ev.d, Bits(Ev.m), Ev.r)
    [] Ev.op = "cbnew" -> IF Ev.r THEN LET X == NewWatch(S, Ev.w, Ev.d, Bits(Ev.m)) IN
                                         /\ Len(S.adds) = 1 /\ S.adds[1].ok /\ S.adds[1].d = Ev.d /\ Plain(S.adds[1].m) = Plain(Bits(Ev.m))
                                         /\ ~There(S, Ev.w) /\ S' = (IF Ev.h = 0 THEN X ELSE AddHandler(X, Ev.w, Ev.h))
                          ELSE Created(Ev.w, Ev.d, Bits(Ev.m), FALSE)
    [] Ev.op = "cbfree" -> S' = UnrefWatch(IF Ev.h = 0 THEN S ELSE RemoveHandler(S, Ev.w, Ev.h), Ev.w)
    [] Ev.op = "ref" -> There(S, Ev.w) /\ Ev.r /\ S' = RefWatch(S, Ev.w)
    [] Ev.op = "unref" -> There(S, Ev.w) /\ S' = UnrefWatch(S, Ev.w)
    [] Ev.op = "destroy" -> There(S, Ev.w) /\ S' = DestroyWatch(S, Ev.w)
    [] Ev.op = "addh" -> There(S, Ev.w) /\ Ev.r /\ S' = AddHandler(S, Ev.w, Ev.h)
    [] Ev.op = "rmh" -> There(S, Ev.w) /\ S' = RemoveHandler(S, Ev.w, Ev.h)
    [] Ev.op = "null" -> Ev.r /\ S' = S
    \* files
    [] Ev.op = "create" -> S' = Create(S, Ev.d, Ev.n)
    [] Ev.op = "write" -> S' = WriteTo(S, Ev.d, Ev.n)
    [] Ev.op = "attr" -> S' = Attrib(S, Ev.d, Ev.n)
    [] Ev.op = "attrself" -> S' = AttribSelf(S, Ev.d)
    [] Ev.op = "unlink" -> S' = Unlink(S, Ev.d, Ev.n)
    [] Ev.op = "mksub" -> S' = MakeSub(S, Ev.d, Ev.n)
    [] Ev.op = "rmsub" -> S' = RemoveSub(S, Ev.d, Ev.n)
    [] Ev.op = "move" -> S' = Move(S, Ev.d, Ev.n, Ev.d2, Ev.n2, Ev.dir)
    [] Ev.op = "moveself" -> S' = MoveSelf(MoveSelf(S, Ev.d), Ev.d)
    [] Ev.op = "rmdir" -> S' = RemoveDir(S, Ev.d)
    [] Ev.op = "mkdir" -> S' = MakeDir(S, Ev.d)
Op == Ev.e = "op" /\ OpStep /\ UNCHANGED top
Call ==
  /\ Ev.e = "call" /\ S.pump /\ S.cur.at = <<>>
  /\ \E X \in Next1(S, Ev.w, Ev.h) :
        /\ Bits(Ev.m) = X.cur.ev.m /\ Ev.c = X.cur.ev.c /\ Ev.n = X.cur.ev.n
        /\ S' = Enter(X, Ev.w, Ev.h)
  /\ UNCHANGED top
Step ==
  \/ Ev.e = "scn" /\ S' = Start /\ top' = 0
  \/ Sys
  \/ Op
  \/ Call
  \/ Ev.e = "ret" /\ S.cur.at # <<>> /\ S' = Leave(S) /\ UNCHANGED top
  \/ Ev.e = "pump" /\ ~S.pump /\ S' = [S EXCEPT !.pump = TRUE] /\ UNCHANGED top
  \/ Ev.e = "pumped" /\ S.pump /\ Finished(S) /\ S' = [S EXCEPT !.pump = FALSE, !.buf = <<>>, !.cur = Idle] /\ UNCHANGED top
  \* The client has control again
  \/ Ev.e = "done" /\ ~S.pump /\ Quiet(S) /\ UNCHANGED vars
  \/ Ev.e = "end" /\ Ev.leak = 0 /\ Ev.sources = 0 /\ ~S.fd /\ ~Used(S) /\ UNCHANGED vars
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Progress == Reached(l)
=============================================================================
