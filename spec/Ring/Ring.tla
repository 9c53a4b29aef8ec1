-------------------------------- MODULE Ring --------------------------------
(* A ring buffer seen by its client: a bounded sequence with two ends.       *)
(* Operations that may call the client's free function are split into the    *)
(* call, the callbacks and the return; the client has control before the     *)
(* call and inside each callback.                                            *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  st,      \* "none" (no ring), "live", "dying" (last reference being dropped)
  items,   \* the elements, front first
  max,     \* maximum size, -1 if unlimited
  ff,      \* is there a free function
  refs,    \* references held by the client
  stack,   \* operations in progress, innermost first
  gone,    \* elements passed to the free function so far
  taken    \* elements handed back to the client so far

ringvars == <<st, items, max, ff, refs, stack, gone, taken>>

Frame == [op : STRING, side : {"front", "back", "none"}, n : Int, r : Int, incb : BOOLEAN]

Norm(m) == IF m < 0 THEN -1 ELSE m
Min(a, b) == IF a < b THEN a ELSE b
Size == Len(items)
Room(n) == max < 0 \/ n <= max - Size
HasMax == max >= 0

\* The client runs at top level or inside a callback
Client == IF stack = <<>> THEN TRUE ELSE Head(stack).incb
Live == st = "live" /\ Client

RingInit ==
  /\ st = "none" /\ items = <<>> /\ max = -1 /\ ff = FALSE /\ refs = 0
  /\ stack = <<>> /\ gone = {} /\ taken = {}

New(m, f) ==
  /\ st = "none" /\ Client
  /\ st' = "live" /\ items' = <<>> /\ max' = Norm(m) /\ ff' = f /\ refs' = 1
  /\ UNCHANGED <<stack, gone, taken>>

---------------------------------------------------------------------------
(* Operations without callbacks *)

PutRet == IF Room(1) THEN 1 ELSE 0
Put(x) ==
  /\ Live
  /\ items' = IF Room(1) THEN Append(items, x) ELSE items
  /\ UNCHANGED <<st, max, ff, refs, stack, gone, taken>>
PutFront(x) ==
  /\ Live
  /\ items' = IF Room(1) THEN <<x>> \o items ELSE items
  /\ UNCHANGED <<st, max, ff, refs, stack, gone, taken>>

GetRet == IF items = <<>> THEN 0 ELSE Head(items)
Get ==
  /\ Live
  /\ items' = IF items = <<>> THEN items ELSE Tail(items)
  /\ taken' = IF items = <<>> THEN taken ELSE taken \cup {Head(items)}
  /\ UNCHANGED <<st, max, ff, refs, stack, gone>>
GetLastRet == IF items = <<>> THEN 0 ELSE items[Size]
GetLast ==
  /\ Live
  /\ items' = IF items = <<>> THEN items ELSE SubSeq(items, 1, Size - 1)
  /\ taken' = IF items = <<>> THEN taken ELSE taken \cup {items[Size]}
  /\ UNCHANGED <<st, max, ff, refs, stack, gone>>

\* Many at a time: x, x + 1 ... as long as they fit
PutManyRet(k) == IF max < 0 THEN k ELSE Min(k, max - Size)
PutMany(x, k) ==
  /\ Live
  /\ items' = items \o [i \in 1..PutManyRet(k) |-> x + i - 1]
  /\ UNCHANGED <<st, max, ff, refs, stack, gone, taken>>
GetMany(k, got) ==
  /\ Live
  /\ got = SubSeq(items, 1, Min(k, Size))
  /\ items' = SubSeq(items, Min(k, Size) + 1, Size)
  /\ taken' = taken \cup {got[i] : i \in 1..Len(got)}
  /\ UNCHANGED <<st, max, ff, refs, stack, gone>>
GetLastMany(k, got) ==
  /\ Live
  /\ got = [i \in 1..Min(k, Size) |-> items[Size + 1 - i]]
  /\ items' = SubSeq(items, 1, Size - Min(k, Size))
  /\ taken' = taken \cup {got[i] : i \in 1..Len(got)}
  /\ UNCHANGED <<st, max, ff, refs, stack, gone>>

\* Compacting, reserving, flattening and asking leave the sequence alone
Same == Live /\ UNCHANGED ringvars
ReserveRet(n) == IF max < 0 \/ n <= max THEN 1 ELSE 0
CanPutRet(n) == IF Room(n) THEN 1 ELSE 0

Ref == Live /\ refs' = refs + 1 /\ UNCHANGED <<st, items, max, ff, stack, gone, taken>>
SetFree(f) == Live /\ stack = <<>> /\ ff' = f
              /\ UNCHANGED <<st, items, max, refs, stack, gone, taken>>

---------------------------------------------------------------------------
(* Operations that may call the free function *)

Push(op, side, n, r) ==
  stack' = <<[op |-> op, side |-> side, n |-> n, r |-> r, incb |-> FALSE]>> \o stack

\* Dropping k elements from one end; without a free function all at once
Discard(op, side, k, r) ==
  IF ff
  THEN Push(op, side, k, r) /\ UNCHANGED items
  ELSE /\ Push(op, "none", 0, r)
       /\ items' = IF side = "front" THEN SubSeq(items, k + 1, Size)
                   ELSE SubSeq(items, 1, Size - k)

DropCount(n) == IF n <= 0 THEN 0 ELSE Min(n, Size)
Drop(n) ==
  /\ Live /\ Discard("drop", "front", DropCount(n), DropCount(n))
  /\ UNCHANGED <<st, max, ff, refs, gone, taken>>
\* Dropping everything from the back is the same as clearing
DropLast(n) ==
  /\ Live
  /\ Discard("dropl", IF DropCount(n) = Size THEN "front" ELSE "back", DropCount(n), DropCount(n))
  /\ UNCHANGED <<st, max, ff, refs, gone, taken>>
Clear ==
  /\ Live /\ Discard("clear", "front", Size, 0)
  /\ UNCHANGED <<st, max, ff, refs, gone, taken>>
SetMax(m) ==
  /\ Live
  /\ max' = Norm(m)
  /\ Discard("setmax", "front", IF Norm(m) # max /\ m >= 0 /\ Size > m THEN Size - m ELSE 0, 0)
  /\ UNCHANGED <<st, ff, refs, gone, taken>>
Unref ==
  /\ Live /\ refs' = refs - 1
  /\ IF refs > 1
     THEN Push("unref", "none", 0, 0) /\ UNCHANGED <<st, items>>
     ELSE /\ stack = <<>> /\ st' = "dying"
          /\ Discard("unref", "front", Size, 0)
  /\ UNCHANGED <<max, ff, gone, taken>>

\* The free function is called for an element that has just left the ring
CbElem == IF Head(stack).side = "front" THEN Head(items) ELSE items[Size]
CbEnter ==
  /\ stack # <<>> /\ ~Head(stack).incb
  /\ Head(stack).side # "none" /\ Head(stack).n > 0 /\ items # <<>>
  /\ gone' = gone \cup {CbElem}
  /\ items' = IF Head(stack).side = "front" THEN Tail(items) ELSE SubSeq(items, 1, Size - 1)
  /\ stack' = [stack EXCEPT ![1].incb = TRUE, ![1].n = @ - 1]
  /\ UNCHANGED <<st, max, ff, refs, taken>>
CbReturn ==
  /\ stack # <<>> /\ Head(stack).incb
  /\ stack' = [stack EXCEPT ![1].incb = FALSE]
  /\ UNCHANGED <<st, items, max, ff, refs, gone, taken>>
CallRet == Head(stack).r
Return ==
  /\ stack # <<>> /\ ~Head(stack).incb
  /\ (IF Head(stack).side = "none" THEN TRUE ELSE Head(stack).n = 0 \/ items = <<>>)
  /\ stack' = Tail(stack)
  /\ IF st = "dying"
     THEN st' = "none" /\ items' = <<>>
     ELSE UNCHANGED <<st, items>>
  /\ UNCHANGED <<max, ff, refs, gone, taken>>

---------------------------------------------------------------------------
(* What a client relies on *)
Elems == {items[i] : i \in 1..Size}
TypeOK ==
  /\ st \in {"none", "live", "dying"} /\ max >= -1 /\ refs >= 0
  /\ \A i \in 1..Len(stack) : stack[i] \in Frame
  /\ (st = "live") => refs > 0
Lowering == \E i \in 1..Len(stack) : stack[i].op = "setmax"
Bounded == (st = "live" /\ HasMax /\ ~Lowering) => Size <= max
\* (for clients that put distinct elements)
FreedOnce == /\ gone \cap Elems = {}
             /\ gone \cap taken = {}
             /\ taken \cap Elems = {}
             /\ Cardinality(Elems) = Size
NothingLeft == st = "none" => items = <<>>
=============================================================================
