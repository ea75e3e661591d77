------------------------------- MODULE MutexSpec -------------------------------
(* Mutex, trylock and scoped lockers (C03).  A call takes effect at one moment  *)
(* between its start and its return (Lin...), which is not observable.          *)
EXTENDS Integers, FiniteSets

CONSTANTS Threads, Mutexes

Nobody == -1
VARIABLES
  holder,   \* [Mutexes -> Threads \cup {Nobody}]
  call,     \* [Threads -> [op, m, lin (taken effect), r (result)]]
  owns      \* [Threads -> SUBSET Mutexes] what each thread may take itself to hold
vars == <<holder, call, owns>>

None == [op |-> "none", m |-> 0, lin |-> FALSE, r |-> FALSE]
Init ==
  /\ holder = [m \in Mutexes |-> Nobody]
  /\ call = [t \in Threads |-> None]
  /\ owns = [t \in Threads |-> {}]

Begin(t, o, m) ==
  /\ call[t].op = "none"
  /\ call' = [call EXCEPT ![t] = [op |-> o, m |-> m, lin |-> FALSE, r |-> FALSE]]

Lock(t, m) == m \notin owns[t] /\ Begin(t, "lock", m) /\ UNCHANGED <<holder, owns>>
Try(t, m) == Begin(t, "try", m) /\ UNCHANGED <<holder, owns>>
(* from here on the thread no longer relies on holding m                        *)
Unlock(t, m) == Begin(t, "unlock", m) /\ owns' = [owns EXCEPT ![t] = @ \ {m}] /\ UNCHANGED holder

LinLock(t) ==
  /\ call[t].op = "lock" /\ ~call[t].lin /\ holder[call[t].m] = Nobody
  /\ holder' = [holder EXCEPT ![call[t].m] = t]
  /\ call' = [call EXCEPT ![t].lin = TRUE] /\ UNCHANGED owns
LinTry(t) ==
  /\ call[t].op = "try" /\ ~call[t].lin
  /\ IF holder[call[t].m] = Nobody
     THEN /\ holder' = [holder EXCEPT ![call[t].m] = t]
          /\ call' = [call EXCEPT ![t].lin = TRUE, ![t].r = TRUE]
     ELSE /\ UNCHANGED holder
          /\ call' = [call EXCEPT ![t].lin = TRUE, ![t].r = FALSE]
  /\ UNCHANGED owns
LinUnlock(t) ==   \* no effect unless t is the holder
  /\ call[t].op = "unlock" /\ ~call[t].lin
  /\ holder' = IF holder[call[t].m] = t THEN [holder EXCEPT ![call[t].m] = Nobody] ELSE holder
  /\ call' = [call EXCEPT ![t].lin = TRUE] /\ UNCHANGED owns
Lin(t) == LinLock(t) \/ LinTry(t) \/ LinUnlock(t)

Locked(t, m) ==
  /\ call[t].op = "lock" /\ call[t].m = m /\ call[t].lin
  /\ owns' = [owns EXCEPT ![t] = @ \cup {m}]
  /\ call' = [call EXCEPT ![t] = None] /\ UNCHANGED holder
Tried(t, m, r) ==
  /\ call[t].op = "try" /\ call[t].m = m /\ call[t].lin /\ call[t].r = r
  /\ owns' = IF r THEN [owns EXCEPT ![t] = @ \cup {m}] ELSE owns
  /\ call' = [call EXCEPT ![t] = None] /\ UNCHANGED holder
Unlocked(t, m) ==
  /\ call[t].op = "unlock" /\ call[t].m = m /\ call[t].lin
  /\ call' = [call EXCEPT ![t] = None] /\ UNCHANGED <<holder, owns>>

Next == \E t \in Threads :
  \/ Lin(t)
  \/ \E m \in Mutexes : \/ Lock(t, m) \/ Try(t, m) \/ Unlock(t, m)
                        \/ Locked(t, m) \/ Unlocked(t, m) \/ \E r \in BOOLEAN : Tried(t, m, r)
Spec == Init /\ [][Next]_vars

(* Mutual exclusion as the users see it.                                        *)
Exclusion == \A s, t \in Threads : s # t => owns[s] \cap owns[t] = {}
OwnersHold == \A t \in Threads : \A m \in owns[t] : holder[m] = t
=============================================================================
