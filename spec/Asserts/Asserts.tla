------------------------------ MODULE Asserts ------------------------------
(* Everything the library does in its debug build, seen from its internal    *)
(* assertions: the client calls it, it calls the client back, objects come   *)
(* and go, and none of these steps makes an assertion fail.  There is no     *)
(* step in which one does.                                                   *)
EXTENDS Naturals
VARIABLE steps             \* how much has happened so far
Init == steps = 0
Step(k) == /\ k # "assert"
           /\ steps' = steps + 1
=============================================================================
