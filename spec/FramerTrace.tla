------------------------------ MODULE FramerTrace ------------------------------
(* Recorded use of real Framer objects; source sample i has value i + base.      *)
EXTENDS TraceBase, DspOps
VARIABLES obj  \* [object |-> [frame, hop, len, base, at]]
tv == <<obj, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ obj = None
Want(o) == [i \in 1..o.frame |-> IF o.at * o.hop + i - 1 < o.len THEN o.base + o.at * o.hop + i - 1 ELSE 0]
\* the same contents described by their shape: a ramp of samples, then zeros
Avail(o) == LET left == o.len - o.at * o.hop IN IF left < 0 THEN 0 ELSE IF left > o.frame THEN o.frame ELSE left
Shape(o, e) == /\ e.ramp = Avail(o) /\ e.zeros = o.frame - Avail(o) /\ e.rest = 0
               /\ (e.ramp > 0 => e.first = o.base + o.at * o.hop)
Step(e) ==
  CASE e.e = "Scenario" -> obj' = None
    [] e.e = "Configure" -> obj' = Put(obj, e.k, [frame |-> e.frame, hop |-> e.hop, len |-> 0, base |-> 0, at |-> 0])
    [] e.e = "SetSource" -> /\ e.max = CeilDiv(e.len, obj[e.k].hop)
                            /\ obj' = [obj EXCEPT ![e.k].len = e.len, ![e.k].base = e.base]
    [] e.e = "Reset" -> obj' = [obj EXCEPT ![e.k].at = 0]
    [] e.e = "Frame" -> e.out = Want(obj[e.k]) /\ obj' = [obj EXCEPT ![e.k].at = @ + 1]
    [] e.e = "Ramp" -> Shape(obj[e.k], e) /\ obj' = [obj EXCEPT ![e.k].at = @ + 1]
    [] e.e = "Huge" -> e.max = e.quot + (IF e.rem > 0 THEN 1 ELSE 0) /\ UNCHANGED obj
    [] e.e = "Far" -> e.max = e.frames /\ UNCHANGED obj
    [] e.e = "FarFrame" -> /\ e.out = [i \in 1..9 |-> IF i <= 4 /\ e.at < e.frames THEN e.at + 1 ELSE 0]
                           /\ UNCHANGED obj
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
