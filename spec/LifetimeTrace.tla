------------------------------ MODULE LifetimeTrace ------------------------------
(* What objects hold.  Every block of memory acquired while an object is made,       *)
(* called or reset is accounted to it.  What an object holds is given back when it    *)
(* is destroyed, by the means matching the one it was got by; and an object that is   *)
(* called again and again with the same inputs does not come to hold more and more,   *)
(* unless it is there to collect (until it is reset).                                 *)
EXTENDS TraceBase, DspOps
VARIABLE objs     \* [object |-> [cls, seen: what it held after each input, by input and number of earlier calls with it]]
tv == <<objs, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ objs = None
(* classes whose purpose is to keep what they are given                               *)
Collecting == {"DownBeatPush", "AllocatorHeld"}
(* values with no object behind them: nothing stays after the call                    *)
Transient == {"Resample", "MedianRun", "Maths", "Hmm", "Cluster", "Pca", "Rejected"}
Slack == 512
CallOK(ob, e) ==
  /\ e.blocks >= 0 /\ e.bytes >= 0
  /\ ob.cls \in Transient => e.blocks <= ob.base
  (* from the second time on, no more than the most it held the first times          *)
  /\ (ob.cls \notin Collecting /\ ob.warm) => e.blocks <= ob.most.blocks + 1 /\ e.bytes <= 2 * ob.most.bytes + Slack
Step(e) ==
  CASE e.e = "Scenario" -> objs' = None
    [] e.e = "New" -> /\ Holds(e.o \notin DOMAIN objs)
                      /\ objs' = Put(objs, e.o, [cls |-> e.cls, base |-> e.blocks, warm |-> FALSE, inputs |-> {}, calls |-> 0, most |-> [blocks |-> e.blocks, bytes |-> e.bytes]])
    [] e.e = "Call" -> /\ Holds(e.o \in DOMAIN objs /\ CallOK(objs[e.o], e))
                       /\ LET ob == objs[e.o]
                              again == e.in \in ob.inputs
                          IN objs' = [objs EXCEPT ![e.o] =
                               [ob EXCEPT !.inputs = @ \cup {e.in}, !.calls = @ + 1, !.warm = @ \/ (again /\ ob.calls >= 2 * Cardinality(ob.inputs)),
                                          !.most = IF ob.warm THEN @ ELSE [blocks |-> MaxI(@.blocks, e.blocks), bytes |-> MaxI(@.bytes, e.bytes)]]]
    [] e.e = "Reset" -> Holds(e.o \in DOMAIN objs /\ e.blocks <= objs[e.o].most.blocks + 1) /\ UNCHANGED objs
    [] e.e = "Delete" -> /\ Holds(e.o \in DOMAIN objs /\ e.blocks = 0 /\ e.bytes = 0)
                         /\ objs' = [o \in DOMAIN objs \ {e.o} |-> objs[o]]
    [] e.e = "End" -> Holds(objs = None /\ e.mismatched = 0) /\ UNCHANGED objs
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
