---------------------------- MODULE AsyncTaskTrace ----------------------------
(* Validates executions of the real AsynchronousTask, recorded under a          *)
(* controlled scheduler, against AsyncTask.  Additionally binds the data that   *)
(* travels with requests and results, the thread that performs, thread ends     *)
(* and the absence of stuck states.                                             *)
EXTENDS TraceBase

Tasks == 0..5
VARIABLES alive, req, begun, done, awaiting, awaited,
          given, made,     \* value handed over by the last request / result of the last performance
          worker           \* [Tasks -> thread that performs, 0 = not known yet]
A == INSTANCE AsyncTask
tvars == <<alive, req, begun, done, awaiting, awaited, given, made, worker, l>>

Reset ==
  /\ alive' = [k \in Tasks |-> "no"] /\ req' = [k \in Tasks |-> 0]
  /\ begun' = [k \in Tasks |-> 0] /\ done' = [k \in Tasks |-> 0]
  /\ awaiting' = [k \in Tasks |-> FALSE] /\ awaited' = [k \in Tasks |-> 0]
  /\ given' = [k \in Tasks |-> 0] /\ made' = [k \in Tasks |-> 0]
  /\ worker' = [k \in Tasks |-> 0]

TraceInit ==
  /\ l = 1 /\ A!Init
  /\ given = [k \in Tasks |-> 0] /\ made = [k \in Tasks |-> 0] /\ worker = [k \in Tasks |-> 0]

Data == UNCHANGED <<given, made, worker>>
AllGone == \A k \in Tasks : alive[k] \in {"no", "gone"}

Step(e) ==
  CASE e.e = "Scenario" -> Reset
    [] e.e = "Create" -> A!Create(e.k) /\ Data
    [] e.e = "Request" -> A!Request(e.k) /\ given' = [given EXCEPT ![e.k] = e.v] /\ UNCHANGED <<made, worker>>
    [] e.e = "PerformBegin" ->
         /\ A!PerformBegin(e.k)
         /\ e.v = given[e.k]                    \* the worker sees what the caller handed over
         /\ e.t # e.caller                      \* on a thread of its own
         /\ worker[e.k] \in {0, e.t}            \* always the same one
         /\ \A j \in Tasks \ {e.k} : alive[j] # "yes" \/ worker[j] # e.t   \* shared with no live task
         /\ worker' = [worker EXCEPT ![e.k] = e.t]
         /\ UNCHANGED <<given, made>>
    [] e.e = "PerformEnd" -> A!PerformEnd(e.k) /\ made' = [made EXCEPT ![e.k] = e.v] /\ UNCHANGED <<given, worker>>
    [] e.e = "AwaitBegin" -> A!AwaitBegin(e.k) /\ Data
    [] e.e = "AwaitEnd" -> A!AwaitEnd(e.k) /\ e.v = made[e.k] /\ Data
    [] e.e = "DestroyBegin" -> A!DestroyBegin(e.k) /\ Data
    [] e.e = "DestroyEnd" -> A!DestroyEnd(e.k) /\ e.workerEnded = TRUE /\ Data
    [] e.e = "ThreadEnd" ->
         \* a worker ends only when its task is being destroyed
         /\ \A k \in Tasks : worker[k] = e.t => alive[k] # "yes"
         /\ UNCHANGED <<alive, req, begun, done, awaiting, awaited>> /\ Data
    [] e.e = "Spurious" -> UNCHANGED <<alive, req, begun, done, awaiting, awaited>> /\ Data
    [] e.e = "End" -> AllGone /\ e.live = 0 /\ e.unjoined = 0
                      /\ UNCHANGED <<alive, req, begun, done, awaiting, awaited>> /\ Data
    [] OTHER -> FALSE       \* Stuck, Livelock, BadJoin, Fault: never allowed

TraceNext == More /\ Advance /\ Step(Ev)
                 /\ (A!Ordered /\ A!ExactlyOnceWhenIdle /\ A!NothingAfterClose)'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
