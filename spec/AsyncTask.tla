------------------------------ MODULE AsyncTask ------------------------------
(* What users of AsynchronousTask rely on (C01), stated on the public calls     *)
(* only: requests (startTask), performances (performTask on the worker),        *)
(* completion waits (awaitTask) and destruction.                                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tasks          \* identities of task objects

VARIABLES
  alive,      \* [Tasks -> {"no", "yes", "closing", "gone"}]
  req,        \* [Tasks -> Nat] requests made
  begun,      \* [Tasks -> Nat] performances begun
  done,       \* [Tasks -> Nat] performances completed
  awaiting,   \* [Tasks -> BOOLEAN] a completion wait is in progress
  awaited     \* [Tasks -> Nat] completion waits that returned

vars == <<alive, req, begun, done, awaiting, awaited>>

Init ==
  /\ alive = [k \in Tasks |-> "no"]
  /\ req = [k \in Tasks |-> 0]
  /\ begun = [k \in Tasks |-> 0]
  /\ done = [k \in Tasks |-> 0]
  /\ awaiting = [k \in Tasks |-> FALSE]
  /\ awaited = [k \in Tasks |-> 0]

Create(k) ==
  /\ alive[k] = "no"
  /\ alive' = [alive EXCEPT ![k] = "yes"]
  /\ UNCHANGED <<req, begun, done, awaiting, awaited>>

(* The contract of use: a request is made only when the last one was awaited.   *)
Request(k) ==
  /\ alive[k] = "yes" /\ req[k] = awaited[k]
  /\ req' = [req EXCEPT ![k] = @ + 1]
  /\ UNCHANGED <<alive, begun, done, awaiting, awaited>>

(* The worker starts the one outstanding request: exactly once, never before    *)
(* it was made, never overlapping another performance of the same task.         *)
PerformBegin(k) ==
  /\ alive[k] = "yes" /\ begun[k] < req[k] /\ begun[k] = done[k]
  /\ begun' = [begun EXCEPT ![k] = @ + 1]
  /\ UNCHANGED <<alive, req, done, awaiting, awaited>>

PerformEnd(k) ==
  /\ done[k] < begun[k]
  /\ done' = [done EXCEPT ![k] = @ + 1]
  /\ UNCHANGED <<alive, req, begun, awaiting, awaited>>

AwaitBegin(k) ==
  /\ alive[k] = "yes" /\ ~awaiting[k] /\ awaited[k] < req[k]
  /\ awaiting' = [awaiting EXCEPT ![k] = TRUE]
  /\ UNCHANGED <<alive, req, begun, done, awaited>>

(* Await returns only once everything requested has been performed.             *)
AwaitEnd(k) ==
  /\ awaiting[k] /\ done[k] = req[k]
  /\ awaiting' = [awaiting EXCEPT ![k] = FALSE]
  /\ awaited' = [awaited EXCEPT ![k] = req[k]]
  /\ UNCHANGED <<alive, req, begun, done>>

DestroyBegin(k) ==
  /\ alive[k] = "yes" /\ awaited[k] = req[k]
  /\ alive' = [alive EXCEPT ![k] = "closing"]
  /\ UNCHANGED <<req, begun, done, awaiting, awaited>>

DestroyEnd(k) ==
  /\ alive[k] = "closing"
  /\ alive' = [alive EXCEPT ![k] = "gone"]
  /\ UNCHANGED <<req, begun, done, awaiting, awaited>>

Next == \E k \in Tasks :
  \/ Create(k) \/ Request(k) \/ PerformBegin(k) \/ PerformEnd(k)
  \/ AwaitBegin(k) \/ AwaitEnd(k) \/ DestroyBegin(k) \/ DestroyEnd(k)

Spec == Init /\ [][Next]_vars

(* Consequences, checked on the design and on every recorded behaviour.         *)
TypeOK ==
  /\ alive \in [Tasks -> {"no", "yes", "closing", "gone"}]
  /\ awaiting \in [Tasks -> BOOLEAN]
Ordered == \A k \in Tasks : awaited[k] <= done[k] /\ done[k] <= begun[k] /\ begun[k] <= req[k]
ExactlyOnceWhenIdle == \A k \in Tasks : (awaited[k] = req[k]) => (begun[k] = req[k] /\ done[k] = req[k])
NothingAfterClose == \A k \in Tasks : alive[k] \in {"closing", "gone"} => begun[k] = req[k] /\ done[k] = req[k]
=============================================================================
