------------------------------ MODULE ThreadLife ------------------------------
(* The life of Thread objects (C02): start, the run on its own thread, wait,    *)
(* destruction.  The Caller* actions are the calls and their returns.           *)
EXTENDS Integers, FiniteSets

CONSTANTS Objects, Threads       \* thread numbers; 0 is nobody

VARIABLES
  obj,       \* [Objects -> {"no", "idle", "starting", "started", "waiting", "destroying", "gone"}]
  starts,    \* [Objects -> Nat]
  begun,     \* [Objects -> Nat] runs begun
  ended,     \* [Objects -> Nat] runs ended
  runner     \* [Objects -> Threads \cup {0}] thread executing the latest run
vars == <<obj, starts, begun, ended, runner>>

Init ==
  /\ obj = [k \in Objects |-> "no"] /\ starts = [k \in Objects |-> 0]
  /\ begun = [k \in Objects |-> 0] /\ ended = [k \in Objects |-> 0]
  /\ runner = [k \in Objects |-> 0]

To(k, s) == obj' = [obj EXCEPT ![k] = s]
Same == UNCHANGED <<starts, begun, ended, runner>>

Create(k) == obj[k] = "no" /\ To(k, "idle") /\ Same
Start(k) ==       \* contract: not while an earlier run has not been waited for
  /\ obj[k] = "idle" /\ To(k, "starting")
  /\ starts' = [starts EXCEPT ![k] = @ + 1] /\ UNCHANGED <<begun, ended, runner>>
Started(k) == obj[k] = "starting" /\ To(k, "started") /\ Same
Wait(k) == obj[k] \in {"idle", "started"} /\ To(k, "waiting") /\ Same
Waited(k) == obj[k] = "waiting" /\ ended[k] = starts[k] /\ To(k, "idle") /\ Same
Destroy(k) ==     \* contract: a run in progress must have begun
  /\ obj[k] \in {"idle", "started"} /\ begun[k] = starts[k] /\ To(k, "destroying") /\ Same
Destroyed(k) == obj[k] = "destroying" /\ ended[k] = starts[k] /\ To(k, "gone") /\ Same
Id(k, t) == obj[k] = "started" /\ (begun[k] = starts[k] => t = runner[k]) /\ UNCHANGED vars

RunBegin(k, t) ==
  /\ obj[k] \notin {"no", "gone", "idle"}
  /\ begun[k] < starts[k] /\ begun[k] = ended[k]
  /\ \A j \in Objects : (j # k /\ ended[j] < begun[j]) => runner[j] # t
  /\ begun' = [begun EXCEPT ![k] = @ + 1]
  /\ runner' = [runner EXCEPT ![k] = t]
  /\ UNCHANGED <<obj, starts, ended>>
RunEnd(k, t) ==
  /\ ended[k] < begun[k] /\ runner[k] = t
  /\ ended' = [ended EXCEPT ![k] = @ + 1]
  /\ UNCHANGED <<obj, starts, begun, runner>>

Next == \E k \in Objects :
  \/ Create(k) \/ Start(k) \/ Started(k) \/ Wait(k) \/ Waited(k) \/ Destroy(k) \/ Destroyed(k)
  \/ \E t \in Threads : RunBegin(k, t) \/ RunEnd(k, t) \/ Id(k, t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A k \in Objects :
  /\ WF_vars(\E t \in Threads : RunBegin(k, t)) /\ WF_vars(\E t \in Threads : RunEnd(k, t))
  /\ WF_vars(Waited(k)) /\ WF_vars(Destroyed(k)) /\ WF_vars(Started(k))

Bound == \A k \in Objects : starts[k] <= 2
OnceEach == \A k \in Objects : ended[k] <= begun[k] /\ begun[k] <= starts[k] /\ starts[k] - ended[k] <= 1
NoRunWithoutObject == \A k \in Objects : obj[k] \in {"idle", "gone", "no"} => ended[k] = starts[k]
DistinctRunners == \A j, k \in Objects : (j # k /\ begun[j] > ended[j] /\ begun[k] > ended[k]) => runner[j] # runner[k]
WaitReturns == \A k \in Objects : (obj[k] = "waiting") ~> (obj[k] = "idle")
DestroyReturns == \A k \in Objects : (obj[k] = "destroying") ~> (obj[k] = "gone")
=============================================================================
