------------------------------ MODULE MutexTrace ------------------------------
EXTENDS TraceBase
Threads == 0..3
Mutexes == 0..1
VARIABLES holder, call, owns
M == INSTANCE MutexSpec
tv == <<holder, call, owns, l>>
TraceInit == l = 1 /\ M!Init /\ MarkInit
Reset == holder' = [m \in Mutexes |-> M!Nobody] /\ call' = [t \in Threads |-> M!None] /\ owns' = [t \in Threads |-> {}]
Step(e) ==
  CASE e.e = "Scenario" -> Reset
    [] e.e = "Lock" -> M!Lock(e.t, e.m)
    [] e.e = "Locked" -> M!Locked(e.t, e.m)
    [] e.e = "Try" -> M!Try(e.t, e.m)
    [] e.e = "Tried" -> M!Tried(e.t, e.m, e.r)
    [] e.e = "Unlock" -> M!Unlock(e.t, e.m)
    [] e.e = "Unlocked" -> M!Unlocked(e.t, e.m)
    \* a thread may be suspended on a mutex inside lock only, never in trylock or unlock
    [] e.e = "Block" -> call[e.t].op = "lock" /\ ~call[e.t].lin /\ UNCHANGED <<holder, call, owns>>
    [] e.e = "ThreadEnd" -> UNCHANGED <<holder, call, owns>>
    [] e.e = "End" -> e.live = 0 /\ (\A t \in Threads : call[t].op = "none") /\ UNCHANGED <<holder, call, owns>>
    [] OTHER -> FALSE
(* A call takes effect only when somebody's next event could need it: silent    *)
(* steps of any thread, at most one per call.                                   *)
Silent == More /\ UNCHANGED l /\ \E t \in Threads : M!Lin(t)
TraceNext == ((More /\ Advance /\ Step(Ev)) \/ Silent) /\ M!Exclusion' /\ M!OwnersHold'
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
