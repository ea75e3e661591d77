---------------------------- MODULE ThreadLifeTrace ----------------------------
EXTENDS TraceBase
Objects == 0..2
Threads == 0..60
VARIABLES obj, starts, begun, ended, runner, seenId
L == INSTANCE ThreadLife
tv == <<obj, starts, begun, ended, runner, seenId, l>>
Reset ==
  /\ obj' = [k \in Objects |-> "no"] /\ starts' = [k \in Objects |-> 0]
  /\ begun' = [k \in Objects |-> 0] /\ ended' = [k \in Objects |-> 0]
  /\ runner' = [k \in Objects |-> 0] /\ seenId' = [k \in Objects |-> 0]
TraceInit == l = 1 /\ L!Init /\ seenId = [k \in Objects |-> 0]
Keep == UNCHANGED seenId
Step(e) ==
  CASE e.e = "Scenario" -> Reset
    [] e.e = "Create" -> L!Create(e.k) /\ Keep
    [] e.e = "Start" -> L!Start(e.k) /\ seenId' = [seenId EXCEPT ![e.k] = 0]
    [] e.e = "Started" -> L!Started(e.k) /\ Keep
    [] e.e = "Wait" -> L!Wait(e.k) /\ Keep
    [] e.e = "Waited" -> L!Waited(e.k) /\ Keep
    [] e.e = "Destroy" -> L!Destroy(e.k) /\ Keep
    [] e.e = "Destroyed" -> L!Destroyed(e.k) /\ Keep
    \* id() names the thread of the run, asked before or after it begins
    [] e.e = "Id" -> L!Id(e.k, e.t) /\ seenId[e.k] \in {0, e.t} /\ seenId' = [seenId EXCEPT ![e.k] = e.t]
    [] e.e = "RunBegin" -> L!RunBegin(e.k, e.t) /\ e.t # e.caller /\ seenId[e.k] \in {0, e.t} /\ Keep
    [] e.e = "RunEnd" -> L!RunEnd(e.k, e.t) /\ Keep
    [] e.e = "ThreadEnd" -> (\A k \in Objects : runner[k] = e.t => ended[k] = begun[k]) /\ UNCHANGED <<obj, starts, begun, ended, runner>> /\ Keep
    [] e.e = "End" -> (\A k \in Objects : obj[k] \in {"no", "gone"} /\ ended[k] = starts[k])
                      /\ e.live = 0 /\ e.unjoined = 0 /\ UNCHANGED <<obj, starts, begun, ended, runner>> /\ Keep
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev) /\ (L!OnceEach /\ L!DistinctRunners)'
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
