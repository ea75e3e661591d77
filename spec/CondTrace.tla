------------------------------- MODULE CondTrace -------------------------------
EXTENDS TraceBase
Threads == 0..3
Timeouts == {} 
MaxTime == 0
MaxSpurious == 0
Slack == 1000     \* a wait may be rounded up to a whole millisecond
VARIABLES holder, wanting, waiting, since, limit, tokens, maybe, spurious, now, inside, due, alone
C == INSTANCE CondSpec
cv == <<holder, wanting, waiting, since, limit, tokens, maybe, spurious, now, inside, due>>
tv == <<cv, alone, l>>
TraceInit == l = 1 /\ C!Init /\ MarkInit /\ alone = TRUE
Reset == /\ holder' = -1 /\ wanting' = {} /\ waiting' = {} /\ tokens' = 0 /\ maybe' = 0 /\ spurious' = {}
         /\ since' = [u \in Threads |-> 0] /\ limit' = [u \in Threads |-> 0] /\ now' = 0
         /\ inside' = {} /\ due' = [u \in Threads |-> 0] /\ alone' = TRUE
Set(s) == {s[i] : i \in 1..Len(s)}
(* Events that carry the time move the clock first.                             *)
AtTime(e, Act(_)) == now' = e.now /\ e.now >= now /\ Act(e)
DoWait(e) ==
  /\ holder = e.t /\ holder' = -1 /\ waiting' = waiting \cup {e.t}
  /\ since' = [since EXCEPT ![e.t] = e.now] /\ limit' = [limit EXCEPT ![e.t] = e.us]
  /\ UNCHANGED <<wanting, tokens, maybe, spurious, inside, due, alone>>
TimedOutAt(t, n) == limit[t] > 0 /\ n >= since[t] + limit[t]
DoWoken(e) ==
  /\ e.t \in waiting /\ holder = -1
  /\ holder' = e.t /\ waiting' = waiting \ {e.t} /\ inside' = waiting \ {e.t} /\ due' = [u \in Threads |-> 0]
  /\ \/ tokens > 0 /\ tokens' = tokens - 1 /\ UNCHANGED <<maybe, spurious>>
     \/ maybe > 0 /\ maybe' = maybe - 1 /\ UNCHANGED <<tokens, spurious>> /\ tokens <= Cardinality(waiting) - 1
     \/ e.t \in spurious /\ spurious' = spurious \ {e.t} /\ UNCHANGED <<tokens, maybe>> /\ tokens <= Cardinality(waiting) - 1
     \/ /\ TimedOutAt(e.t, e.now) /\ UNCHANGED <<tokens, maybe, spurious>> /\ tokens <= Cardinality(waiting) - 1
        \* nobody else ever involved: the wait must end once its time has passed
        /\ alone => e.now <= since[e.t] + limit[e.t] + Slack
  /\ UNCHANGED <<wanting, since, limit, alone>>
Step(e) ==
  CASE e.e = "Scenario" -> Reset
    [] e.e = "Lock" -> C!Lock(e.t) /\ alone' = (alone /\ wanting = {} /\ waiting = {} /\ holder = -1)
    [] e.e = "Locked" -> C!Locked(e.t) /\ UNCHANGED alone
    [] e.e = "Unlock" -> C!Unlock(e.t) /\ UNCHANGED alone
    [] e.e = "UnlockNone" -> C!UnlockNone(e.t) /\ UNCHANGED alone
    [] e.e = "Wait" -> AtTime(e, DoWait)
    [] e.e = "Woken" -> AtTime(e, DoWoken)
    [] e.e = "Signal" -> C!Signal(e.t) /\ UNCHANGED alone
    [] e.e = "Signaled" -> C!Signaled(e.t) /\ UNCHANGED alone
    [] e.e = "Spurious" -> C!Spurious(e.t) /\ UNCHANGED alone
    [] e.e = "Stuck" -> C!Stuck(Set(e.blocked), Set(e.waiting)) /\ UNCHANGED alone
    [] e.e = "ThreadEnd" -> UNCHANGED <<cv, alone>>
    [] e.e = "End" -> e.live = 0 /\ holder = -1 /\ wanting = {} /\ waiting = {} /\ UNCHANGED <<cv, alone>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev) /\ C!Sane'
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
