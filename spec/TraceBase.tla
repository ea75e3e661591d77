------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace (one JSON object per line, field "e" names the      *)
(* event) and accepting it.  A trace specification keeps its position in l.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)

VARIABLE l

More == l <= NEvents
Ev == Trace[l]
Advance == l' = l + 1
(* A condition evaluated as a value: TLC does not branch on its disjunctions.     *)
Holds(p) == p = TRUE

(* Without silent steps one state is created per accepted event.                *)
Accepted == PrintT(<<"VP_DIAM", TLCGet("stats").diameter - 1>>)

(* With silent steps: the furthest position reached, kept in register 7 by the  *)
(* constraint Mark (one worker).                                                *)
MarkInit == TLCSet(7, 0)
Mark == IF l - 1 > TLCGet(7) THEN TLCSet(7, l - 1) ELSE TRUE
AcceptedHW == PrintT(<<"VP_DIAM", TLCGet(7)>>)
=============================================================================
