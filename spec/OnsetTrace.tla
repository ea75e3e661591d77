-------------------------------- MODULE OnsetTrace --------------------------------
(* Recorded use of real DetectionFunction objects.                                *)
EXTENDS TraceBase, OnsetOps
VARIABLE obj   \* [object |-> [type, rise, at (the bins that are ever active), floor, relax, c, p, peak]]
tv == <<obj, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ obj = None
Bins(e) == [i \in 1..Len(e.m) |-> [m |-> e.m[i], q |-> e.q[i]]]
(* whitening in thousandths: the peak follows a louder bin at once and relaxes    *)
(* towards a quieter one by (1 - relax), relax in eighths; never below the floor  *)
NewPeak(o, i, m) ==
  LET x == IF 1000 * m < o.peak[i] THEN 1000 * m + ((o.peak[i] - 1000 * m) * o.relax) \div 8 ELSE 1000 * m
  IN MaxI(x, o.floor)
Value(o, b) == IF o.type = 1 THEN SumSeq([i \in 1..Len(b) |-> 1000 * b[i].m * o.at[i]]) ELSE DFValue(o.type, o.rise, b, o.c, o.p)
Step(e) ==
  CASE e.e = "Scenario" -> obj' = None
    [] e.e = "New" -> obj' = Put(obj, e.k, [type |-> e.type, rise |-> e.rise, scale |-> e.scale, at |-> e.at, c |-> Silent(e.bins), p |-> Silent(e.bins),
                                            relax |-> e.relax, floor |-> e.floor, peak |-> [i \in 1..e.bins |-> 0]])
    [] e.e = "Frame" ->  \* value multiplied by the scale of the object for the proportional types
         LET o == obj[e.k]  b == Bins(e)
         IN /\ Near(e.v, Value(o, b), 2 * Len(b) + 2)
            /\ e.rest = 0
            /\ \A i \in 1..Len(b) : Near(e.mag[i], 1000 * b[i].m, 1)
            /\ obj' = [obj EXCEPT ![e.k].p = o.c, ![e.k].c = b]
    [] e.e = "White" ->  \* general whitening: magnitudes, and high-frequency content computed from them
         LET o == obj[e.k]  pk == [i \in 1..Len(e.m) |-> NewPeak(o, i, e.m[i])]
         IN /\ \A i \in 1..Len(e.m) : Near(e.mag[i], (1000000 * e.m[i]) \div pk[i], 12)
            /\ o.type = 1 => Near(e.v, SumSeq([i \in 1..Len(e.m) |-> e.mag[i] * o.at[i]]), SumSeq(o.at) + 2)
            /\ e.rest = 0
            /\ obj' = [obj EXCEPT ![e.k].peak = pk]
    [] e.e = "Agree" -> Near(e.td, e.fd, e.tol) /\ UNCHANGED obj
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
