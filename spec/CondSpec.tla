------------------------------- MODULE CondSpec -------------------------------
(* Condition (C04): a lock and a wait queue in one.  Signals counted here are   *)
(* sent while holding the lock; time is in microseconds.                        *)
EXTENDS Integers, FiniteSets

CONSTANTS Threads, Timeouts, MaxTime, MaxSpurious, Slack
Nobody == -1

VARIABLES
  holder,    \* who holds the lock
  wanting,   \* set of threads inside lock()
  waiting,   \* set of threads inside wait()
  since,     \* [Threads -> time the wait began]
  limit,     \* [Threads -> timeout in us, 0 for none]
  tokens,    \* signals sent that some waiting thread is bound to consume
  maybe,     \* signals sent without the lock: they may or may not find a waiter
  spurious,  \* set of threads woken without signal by the platform
  now,
  inside,    \* waiting threads known to have released the lock: somebody has held it since
  due        \* [Threads -> waiters that were there for its signal(), sent without the lock, to find]
vars == <<holder, wanting, waiting, since, limit, tokens, maybe, spurious, now, inside, due>>

Init ==
  /\ holder = Nobody /\ wanting = {} /\ waiting = {} /\ tokens = 0 /\ maybe = 0 /\ spurious = {}
  /\ since = [u \in Threads |-> 0] /\ limit = [u \in Threads |-> 0] /\ now = 0
  /\ inside = {} /\ due = [u \in Threads |-> 0]

Free(t) == holder # t /\ t \notin wanting /\ t \notin waiting
Lock(t) == Free(t) /\ wanting' = wanting \cup {t} /\ UNCHANGED <<holder, waiting, since, limit, tokens, maybe, spurious, now, inside, due>>
Locked(t) == t \in wanting /\ holder = Nobody /\ holder' = t /\ wanting' = wanting \ {t}
             /\ inside' = waiting   \* whoever waits has let go of the lock
             /\ UNCHANGED <<waiting, since, limit, tokens, maybe, spurious, now, due>>
Unlock(t) == holder = t /\ holder' = Nobody /\ UNCHANGED <<wanting, waiting, since, limit, tokens, maybe, spurious, now, inside, due>>
(* Unlocking what nobody holds and nobody is waiting on has no effect.          *)
UnlockNone(t) == holder = Nobody /\ waiting = {} /\ UNCHANGED vars

(* Release and wait in one step.                                                *)
Wait(t, us) ==
  /\ holder = t /\ holder' = Nobody
  /\ waiting' = waiting \cup {t}
  /\ since' = [since EXCEPT ![t] = now] /\ limit' = [limit EXCEPT ![t] = us]
  /\ UNCHANGED <<wanting, tokens, maybe, spurious, now, inside, due>>

Signal(t) ==
  /\ IF holder = t
     THEN /\ tokens' = IF tokens < Cardinality(waiting) THEN tokens + 1 ELSE tokens
          /\ UNCHANGED <<maybe, due>>
     ELSE /\ maybe' = IF maybe < Cardinality(Threads) THEN maybe + 1 ELSE maybe
          /\ due' = [due EXCEPT ![t] = Cardinality(inside)]
          /\ UNCHANGED tokens
  /\ UNCHANGED <<holder, wanting, waiting, since, limit, spurious, now, inside>>
(* signal() has returned.  Sent without the lock while threads were waiting     *)
(* from beginning to end, it is as binding as one sent with it.                 *)
Signaled(t) ==
  /\ IF tokens < due[t]
     THEN /\ maybe' = maybe - 1 /\ tokens' = tokens + 1 /\ due' = [due EXCEPT ![t] = 0]
     ELSE /\ due' = [due EXCEPT ![t] = 0] /\ UNCHANGED <<maybe, tokens>>
  /\ UNCHANGED <<holder, wanting, waiting, since, limit, spurious, now, inside>>

TimedOut(t) == limit[t] > 0 /\ now >= since[t] + limit[t]
(* A wait ends with the lock held, because of a signal, its timeout or the      *)
(* platform; a signal is never left over while everybody keeps waiting.         *)
Woken(t) ==
  /\ t \in waiting /\ holder = Nobody
  /\ holder' = t /\ waiting' = waiting \ {t} /\ inside' = waiting \ {t} /\ due' = [u \in Threads |-> 0]
  /\ \/ tokens > 0 /\ tokens' = tokens - 1 /\ UNCHANGED <<maybe, spurious>>
     \/ maybe > 0 /\ maybe' = maybe - 1 /\ UNCHANGED <<tokens, spurious>> /\ tokens <= Cardinality(waiting) - 1
     \/ t \in spurious /\ spurious' = spurious \ {t} /\ UNCHANGED <<tokens, maybe>> /\ tokens <= Cardinality(waiting) - 1
     \/ TimedOut(t) /\ UNCHANGED <<tokens, maybe, spurious>> /\ tokens <= Cardinality(waiting) - 1
  /\ UNCHANGED <<wanting, since, limit, now>>
Spurious(t) == t \in waiting /\ spurious' = spurious \cup {t}
               /\ UNCHANGED <<holder, wanting, waiting, since, limit, tokens, maybe, now, inside, due>>

(* Time may pass, but not beyond an uncontended timed wait's end (plus the      *)
(* granularity Slack of the platform's clock).                                  *)
Advance(n) ==
  /\ n > now
  /\ now' = n /\ UNCHANGED <<holder, wanting, waiting, since, limit, tokens, maybe, spurious, inside, due>>

(* Everything that could run has run and these threads are still blocked: only  *)
(* untimed waiters that no signal is due to.                                    *)
Stuck(blocked, inwait) ==
  /\ holder = Nobody /\ wanting = {}
  /\ inwait \subseteq waiting /\ waiting \subseteq inwait
  /\ tokens = 0
  /\ \A t \in waiting : limit[t] = 0
  /\ UNCHANGED vars

Next == \/ \E t \in Threads : \/ Lock(t) \/ Locked(t) \/ Unlock(t) \/ Signal(t) \/ Signaled(t) \/ Woken(t)
                              \/ (Cardinality(spurious) < MaxSpurious /\ Spurious(t))
                              \/ \E us \in Timeouts : Wait(t, us)
        \/ (now < MaxTime /\ Advance(now + 1))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars(Locked(t)) /\ SF_vars(Woken(t)) /\ WF_vars(Unlock(t))

Sane == /\ holder \notin waiting \cup wanting
        /\ tokens <= Cardinality(waiting)
        /\ waiting \cap wanting = {}
        /\ inside \subseteq waiting
        /\ maybe >= 0
NoSignalLost == (tokens > 0) => (waiting # {})
=============================================================================
