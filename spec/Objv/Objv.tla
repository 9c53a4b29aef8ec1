-------------------------------- MODULE Objv --------------------------------
(* Vectors of references to objects *)
EXTENDS Seqs

CONSTANTS V, O     \* vectors and objects
VARIABLES there, vec,
          own,     \* object -> references of the client's own
          born     \* objects created so far
ovars == <<there, vec, own, born>>
OInit == there = {} /\ vec = [v \in V |-> <<>>] /\ own = [o \in O |-> 0] /\ born = {}

RECURSIVE SumOver(_, _, _)
SumOver(VV, f, o) == IF VV = {} THEN 0 ELSE LET v == CHOOSE v \in VV : TRUE IN CountOf(f[v], o) + SumOver(VV \ {v}, f, o)
\* exactly one reference per slot
RefCount(o, f, w) == w[o] + SumOver(V, f, o)
Alive(o) == o \in born /\ RefCount(o, vec, own) > 0
\* objects that go away when the state changes
Dying == {o \in born : RefCount(o, vec, own) > 0 /\ RefCount(o, vec', own') = 0}

NewObj(o) == o \notin born /\ born' = born \cup {o} /\ own' = [own EXCEPT ![o] = 1] /\ UNCHANGED <<there, vec>>
DropObj(o) == own[o] > 0 /\ own' = [own EXCEPT ![o] = @ - 1] /\ UNCHANGED <<there, vec, born>>
KeepObj == UNCHANGED <<own, born>>
Put(v, s) == vec' = [vec EXCEPT ![v] = s]
AllAlive(s) == \A i \in 1..Len(s) : Alive(s[i])
New(v, s) == v \notin there /\ AllAlive(s) /\ there' = there \cup {v} /\ Put(v, s) /\ KeepObj
Free(v) == there' = there \ {v} /\ Put(v, <<>>) /\ KeepObj
Copy(v, w) == v \notin there /\ there' = (IF w \in there THEN there \cup {v} ELSE there) /\ Put(v, vec[w]) /\ KeepObj
Grow(v, s) == Put(v, s) /\ there' = there \cup {v} /\ KeepObj
Same == UNCHANGED ovars
Add(v, o) == Alive(o) /\ Grow(v, Append(vec[v], o))
\* inserting beyond the end means appending
Insert(v, o, pos) == Alive(o) /\ Grow(v, InsAt(vec[v], Min2(pos, Len(vec[v])), <<o>>))
\* v and w may be the same array
AppendAll(v, w) == IF vec[w] = <<>> THEN Same ELSE Grow(v, vec[v] \o vec[w])
Edit(v, s) == Put(v, s) /\ UNCHANGED there /\ KeepObj
RemoveAt(v, pos) == Edit(v, IF pos < Len(vec[v]) THEN DelAt(vec[v], pos, 1) ELSE vec[v])
Remove(v, o, all) == Alive(o) /\ Edit(v, IF all THEN Without(vec[v], o)
                                         ELSE IF Has(vec[v], o) THEN DelAt(vec[v], IndexOf(vec[v], o), 1) ELSE vec[v])
Absent == \A v \in V : v \notin there => vec[v] = <<>>
NoGhosts == \A v \in V : AllAlive(vec[v])
=============================================================================
