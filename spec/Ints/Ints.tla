-------------------------------- MODULE Ints --------------------------------
(* Immutable integer arrays: contents and ownership. An array either owns a  *)
(* block of memory or is a slice of another array.                           *)
EXTENDS Seqs

CONSTANT I  \* arrays
VARIABLES data,    \* array -> contents
          refs,    \* array -> references held by the client
          parent,  \* array -> the array it is a slice of, or 0
          alive,   \* arrays which are there
          given    \* arrays whose memory the client gave with a function to release it
ivars == <<data, refs, parent, alive, given>>

IInit == data = [i \in I |-> <<>>] /\ refs = [i \in I |-> 0] /\ parent = [i \in I |-> 0] /\ alive = {} /\ given = {}
Children(i, live) == {j \in live : parent[j] = i}
\* what goes away if array i does
RECURSIVE Gone(_, _, _)
Gone(i, live, r) == \* live: those alive, r: client's references
  IF i = 0 \/ i \notin live THEN {}
  ELSE IF r[i] > 0 \/ Children(i, live) # {} THEN {}
  ELSE {i} \cup Gone(parent[i], live \ {i}, r)

\* Nothing is made out of nothing
New(i, s, owned) ==
  /\ i \notin alive /\ s # <<>>
  /\ data' = [data EXCEPT ![i] = s] /\ refs' = [refs EXCEPT ![i] = 1] /\ parent' = [parent EXCEPT ![i] = 0]
  /\ alive' = alive \cup {i} /\ given' = IF owned THEN given \cup {i} ELSE given \ {i}
Slice(s, off, n) == SubSeq(s, Min2(off, Len(s)) + 1, Min2(off, Len(s)) + Min2(n, Len(s) - Min2(off, Len(s))))
NewSlice(i, p, off, n) ==
  /\ i \notin alive /\ refs[p] > 0
  /\ LET s == Slice(data[p], off, n) IN
     IF s = <<>> THEN UNCHANGED ivars
     ELSE /\ data' = [data EXCEPT ![i] = s] /\ refs' = [refs EXCEPT ![i] = 1] /\ parent' = [parent EXCEPT ![i] = p]
          /\ alive' = alive \cup {i} /\ given' = given \ {i}
Ref(i) == refs[i] > 0 /\ refs' = [refs EXCEPT ![i] = @ + 1] /\ UNCHANGED <<data, parent, alive, given>>
\* the blocks that get released when a reference to i is dropped
Released(i) == Gone(i, alive, [refs EXCEPT ![i] = @ - 1]) \cap given
Unref(i) == /\ refs[i] > 0 /\ refs' = [refs EXCEPT ![i] = @ - 1]
            /\ alive' = alive \ Gone(i, alive, refs')
            /\ UNCHANGED <<data, parent, given>>
Look == UNCHANGED ivars

Known == {i \in I : refs[i] > 0}
NeverEmpty == \A i \in alive : data[i] # <<>>
Kept == \A i \in alive : refs[i] > 0 \/ Children(i, alive) # {}
Sound == \A i \in alive : parent[i] # 0 => parent[i] \in alive
         /\ \E off \in 0..Len(data[parent[i]]) : data[i] = SubSeq(data[parent[i]], off + 1, off + Len(data[i]))
Reachable == Known \subseteq alive
=============================================================================
