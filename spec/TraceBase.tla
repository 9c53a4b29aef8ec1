----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: the trace recorded from the      *)
(* implementation (one JSON object per line, in the file named by the        *)
(* environment variable TRACE_FILE) and the measure of how much of it the    *)
(* specification can follow.                                                 *)
EXTENDS TLC, TLCExt, IOUtils, Json, Naturals, Sequences
Tr == ndJsonDeserialize(IOEnv.TRACE_FILE)
Reached(n) == TLCSet(1, IF n > TLCGet(1) THEN n ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Followed == PrintT(<<"FOLLOWED", TLCGet(1), Len(Tr)>>)
=============================================================================
