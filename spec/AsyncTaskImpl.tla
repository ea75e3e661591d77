---------------------------- MODULE AsyncTaskImpl ----------------------------
(* The hand-off protocol of AsynchronousTask at the grain of its lock and       *)
(* condition operations, several tasks driven by one caller, with spurious      *)
(* wakeups.  Checked exhaustively: it refines AsyncTask, cannot deadlock, and   *)
(* under fair scheduling every request is awaited and every worker ends.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tasks, Rounds,
          Predicated,     \* awaitTask re-tests its condition after waking
          MaxSpurious,
          Order           \* sequence of all tasks: order of requests and of awaits

VARIABLES
  alive, req, begun, done, awaiting, awaited,   \* as in AsyncTask
  doneOwner, todoOwner,      \* [Tasks -> {"-", "C", "W"}] holders of the two locks
  doneWait,                  \* [Tasks -> {"no", "in", "woken"}] the caller in m_done.wait
  todoWait,                  \* [Tasks -> {"no", "in", "woken"}] the worker in m_todo.wait
  inTask, finishing,         \* [Tasks -> BOOLEAN]
  wpc,                       \* [Tasks -> worker program counter]
  cpc, cix, round,           \* caller: step, position in Order, round
  spurious

api == <<alive, req, begun, done, awaiting, awaited>>
locks == <<doneOwner, todoOwner, doneWait, todoWait>>
flags == <<inTask, finishing>>
caller == <<cpc, cix, round>>
vars == <<api, locks, flags, wpc, caller, spurious>>

A == INSTANCE AsyncTask

Cur == Order[cix]

Init ==
  /\ A!Init
  /\ doneOwner = [k \in Tasks |-> "-"] /\ todoOwner = [k \in Tasks |-> "-"]
  /\ doneWait = [k \in Tasks |-> "no"] /\ todoWait = [k \in Tasks |-> "no"]
  /\ inTask = [k \in Tasks |-> FALSE] /\ finishing = [k \in Tasks |-> FALSE]
  /\ wpc = [k \in Tasks |-> "unborn"]
  /\ cpc = "create" /\ cix = 1 /\ round = 1
  /\ spurious = 0

Goto(p) == cpc' = p /\ UNCHANGED <<cix, round>>
(* next task in the same phase, or the first one in phase p                     *)
NextTask(here, p) ==
  IF cix < Len(Order) THEN cpc' = here /\ cix' = cix + 1 /\ UNCHANGED round
  ELSE cpc' = p /\ cix' = 1 /\ UNCHANGED round

(* The updates below are those of AsyncTask without its guards: that the guards *)
(* hold whenever the protocol takes a step is what Refines checks.              *)

(* ------------------------------- the caller -------------------------------- *)
CCreate ==
  /\ cpc = "create"
  /\ A!Create(Cur)
  /\ wpc' = [wpc EXCEPT ![Cur] = "lockTodo"]
  /\ NextTask("create", IF Rounds > 0 THEN "s1" ELSE "d1")
  /\ UNCHANGED <<locks, flags, spurious>>

CStart1 == \* m_done.lock()
  /\ cpc = "s1" /\ doneOwner[Cur] = "-"
  /\ req' = [req EXCEPT ![Cur] = @ + 1] /\ UNCHANGED <<alive, begun, done, awaiting, awaited>>
  /\ doneOwner' = [doneOwner EXCEPT ![Cur] = "C"]
  /\ Goto("s2") /\ UNCHANGED <<todoOwner, doneWait, todoWait, flags, wpc, spurious>>
CStart2 == \* m_todo.lock()
  /\ cpc = "s2" /\ todoOwner[Cur] = "-"
  /\ todoOwner' = [todoOwner EXCEPT ![Cur] = "C"]
  /\ Goto("s3") /\ UNCHANGED <<api, doneOwner, doneWait, todoWait, flags, wpc, spurious>>
CStart3 == \* m_inTask = true; m_todo.signal()
  /\ cpc = "s3"
  /\ inTask' = [inTask EXCEPT ![Cur] = TRUE]
  /\ todoWait' = [todoWait EXCEPT ![Cur] = IF @ = "in" THEN "woken" ELSE @]
  /\ Goto("s4") /\ UNCHANGED <<api, doneOwner, todoOwner, doneWait, finishing, wpc, spurious>>
CStart4 == \* m_todo.unlock()
  /\ cpc = "s4"
  /\ todoOwner' = [todoOwner EXCEPT ![Cur] = "-"]
  /\ NextTask("s1", "a1") /\ UNCHANGED <<api, doneOwner, doneWait, todoWait, flags, wpc, spurious>>

CAwait1 == \* the predicate, if the code has one
  /\ cpc = "a1"
  /\ IF awaiting[Cur] THEN UNCHANGED api ELSE A!AwaitBegin(Cur)
  /\ IF Predicated /\ ~inTask[Cur] THEN Goto("a4") ELSE Goto("a2")
  /\ UNCHANGED <<locks, flags, wpc, spurious>>
CAwait2 == \* m_done.wait(): release and wait, atomically
  /\ cpc = "a2"
  /\ doneOwner' = [doneOwner EXCEPT ![Cur] = "-"]
  /\ doneWait' = [doneWait EXCEPT ![Cur] = "in"]
  /\ Goto("a3") /\ UNCHANGED <<api, todoOwner, todoWait, flags, wpc, spurious>>
CAwait3 == \* woken: re-acquire
  /\ cpc = "a3" /\ doneWait[Cur] = "woken" /\ doneOwner[Cur] = "-"
  /\ doneOwner' = [doneOwner EXCEPT ![Cur] = "C"]
  /\ doneWait' = [doneWait EXCEPT ![Cur] = "no"]
  /\ Goto(IF Predicated THEN "a1" ELSE "a4")
  /\ UNCHANGED <<api, todoOwner, todoWait, flags, wpc, spurious>>
CAwait4 == \* m_done.unlock(); return
  /\ cpc = "a4"
  /\ awaiting' = [awaiting EXCEPT ![Cur] = FALSE] /\ awaited' = [awaited EXCEPT ![Cur] = req[Cur]]
  /\ UNCHANGED <<alive, req, begun, done>>
  /\ doneOwner' = [doneOwner EXCEPT ![Cur] = "-"]
  /\ IF cix < Len(Order) THEN cpc' = "a1" /\ cix' = cix + 1 /\ UNCHANGED round
     ELSE IF round < Rounds THEN cpc' = "s1" /\ cix' = 1 /\ round' = round + 1
     ELSE cpc' = "d1" /\ cix' = 1 /\ UNCHANGED round
  /\ UNCHANGED <<todoOwner, doneWait, todoWait, flags, wpc, spurious>>

CDestroy1 == \* m_todo.lock()
  /\ cpc = "d1" /\ todoOwner[Cur] = "-"
  /\ alive' = [alive EXCEPT ![Cur] = "closing"] /\ UNCHANGED <<req, begun, done, awaiting, awaited>>
  /\ todoOwner' = [todoOwner EXCEPT ![Cur] = "C"]
  /\ Goto("d2") /\ UNCHANGED <<doneOwner, doneWait, todoWait, flags, wpc, spurious>>
CDestroy2 == \* m_finishing = true; m_todo.signal()
  /\ cpc = "d2"
  /\ finishing' = [finishing EXCEPT ![Cur] = TRUE]
  /\ todoWait' = [todoWait EXCEPT ![Cur] = IF @ = "in" THEN "woken" ELSE @]
  /\ Goto("d3") /\ UNCHANGED <<api, doneOwner, todoOwner, doneWait, inTask, wpc, spurious>>
CDestroy3 == \* m_todo.unlock()
  /\ cpc = "d3"
  /\ todoOwner' = [todoOwner EXCEPT ![Cur] = "-"]
  /\ Goto("d4") /\ UNCHANGED <<api, doneOwner, doneWait, todoWait, flags, wpc, spurious>>
CDestroy4 == \* wait(): join the worker
  /\ cpc = "d4" /\ wpc[Cur] = "ended"
  /\ A!DestroyEnd(Cur)
  /\ NextTask("d1", "finished") /\ UNCHANGED <<locks, flags, wpc, spurious>>

(* ------------------------------- a worker ---------------------------------- *)
WGoto(k, p) == wpc' = [wpc EXCEPT ![k] = p]
WLockTodo(k) ==
  /\ wpc[k] = "lockTodo" /\ todoOwner[k] = "-"
  /\ todoOwner' = [todoOwner EXCEPT ![k] = "W"]
  /\ WGoto(k, "test") /\ UNCHANGED <<api, doneOwner, doneWait, todoWait, flags, caller, spurious>>
WTest(k) ==
  /\ wpc[k] = "test"
  /\ WGoto(k, IF ~inTask[k] /\ ~finishing[k] THEN "wait"
              ELSE IF finishing[k] THEN "finLockDone" ELSE "perform")
  /\ UNCHANGED <<api, locks, flags, caller, spurious>>
WWait(k) ==
  /\ wpc[k] = "wait"
  /\ todoOwner' = [todoOwner EXCEPT ![k] = "-"]
  /\ todoWait' = [todoWait EXCEPT ![k] = "in"]
  /\ WGoto(k, "waiting") /\ UNCHANGED <<api, doneOwner, doneWait, flags, caller, spurious>>
WWoken(k) ==
  /\ wpc[k] = "waiting" /\ todoWait[k] = "woken" /\ todoOwner[k] = "-"
  /\ todoOwner' = [todoOwner EXCEPT ![k] = "W"]
  /\ todoWait' = [todoWait EXCEPT ![k] = "no"]
  /\ WGoto(k, "test") /\ UNCHANGED <<api, doneOwner, doneWait, flags, caller, spurious>>
WPerform(k) ==
  /\ wpc[k] = "perform"
  /\ begun' = [begun EXCEPT ![k] = @ + 1] /\ UNCHANGED <<alive, req, done, awaiting, awaited>>
  /\ WGoto(k, "performing") /\ UNCHANGED <<locks, flags, caller, spurious>>
WPerformed(k) ==
  /\ wpc[k] = "performing"
  /\ done' = [done EXCEPT ![k] = @ + 1] /\ UNCHANGED <<alive, req, begun, awaiting, awaited>>
  /\ WGoto(k, "lockDone") /\ UNCHANGED <<locks, flags, caller, spurious>>
WLockDone(k, here, next) ==
  /\ wpc[k] = here /\ doneOwner[k] = "-"
  /\ doneOwner' = [doneOwner EXCEPT ![k] = "W"]
  /\ WGoto(k, next) /\ UNCHANGED <<api, todoOwner, doneWait, todoWait, flags, caller, spurious>>
WSignalDone(k, here, next) ==
  /\ wpc[k] = here
  /\ inTask' = [inTask EXCEPT ![k] = FALSE]
  /\ doneWait' = [doneWait EXCEPT ![k] = IF @ = "in" THEN "woken" ELSE @]
  /\ WGoto(k, next) /\ UNCHANGED <<api, doneOwner, todoOwner, todoWait, finishing, caller, spurious>>
WUnlockDone(k, here, next) ==
  /\ wpc[k] = here
  /\ doneOwner' = [doneOwner EXCEPT ![k] = "-"]
  /\ WGoto(k, next) /\ UNCHANGED <<api, todoOwner, doneWait, todoWait, flags, caller, spurious>>
WEnd(k) ==
  /\ wpc[k] = "finUnlockTodo"
  /\ todoOwner' = [todoOwner EXCEPT ![k] = "-"]
  /\ WGoto(k, "ended") /\ UNCHANGED <<api, doneOwner, doneWait, todoWait, flags, caller, spurious>>

(* ------------------------------ the platform -------------------------------- *)
Spurious ==
  /\ spurious < MaxSpurious
  /\ spurious' = spurious + 1
  /\ \E k \in Tasks :
       \/ doneWait[k] = "in" /\ doneWait' = [doneWait EXCEPT ![k] = "woken"] /\ UNCHANGED todoWait
       \/ todoWait[k] = "in" /\ todoWait' = [todoWait EXCEPT ![k] = "woken"] /\ UNCHANGED doneWait
  /\ UNCHANGED <<api, doneOwner, todoOwner, flags, wpc, caller>>

Caller == CCreate \/ CStart1 \/ CStart2 \/ CStart3 \/ CStart4 \/ CAwait1 \/ CAwait2 \/ CAwait3
          \/ CAwait4 \/ CDestroy1 \/ CDestroy2 \/ CDestroy3 \/ CDestroy4
Worker(k) ==
  \/ WLockTodo(k) \/ WTest(k) \/ WWait(k) \/ WWoken(k) \/ WPerform(k) \/ WPerformed(k)
  \/ WLockDone(k, "lockDone", "signalDone") \/ WSignalDone(k, "signalDone", "unlockDone")
  \/ WUnlockDone(k, "unlockDone", "test")
  \/ WLockDone(k, "finLockDone", "finSignal") \/ WSignalDone(k, "finSignal", "finUnlock")
  \/ WUnlockDone(k, "finUnlock", "finUnlockTodo") \/ WEnd(k)

Finished == cpc = "finished" /\ UNCHANGED vars
Next == Caller \/ (\E k \in Tasks : Worker(k)) \/ Spurious \/ Finished

Spec == Init /\ [][Next]_vars /\ WF_vars(Caller) /\ \A k \in Tasks : WF_vars(Worker(k))

(* --------------------------------- checked ---------------------------------- *)
Refines == A!Spec
Inv == A!TypeOK /\ A!Ordered /\ A!ExactlyOnceWhenIdle /\ A!NothingAfterClose
LocksHeldByOne ==
  \A k \in Tasks : /\ (wpc[k] \in {"test", "wait", "perform", "performing", "finLockDone"} => todoOwner[k] = "W")
                   /\ (todoOwner[k] = "C" => cpc \in {"s3", "s4", "d2", "d3"})
NoDeadlock == (cpc # "finished") => ENABLED Next
Completes == <>(cpc = "finished")
AllWorkersEnd == <>[](\A k \in Tasks : wpc[k] = "ended")

OrderAB == IF Cardinality(Tasks) = 1 THEN <<CHOOSE k \in Tasks : TRUE>>
           ELSE LET a == CHOOSE k \in Tasks : TRUE
                    b == CHOOSE k \in Tasks \ {a} : TRUE
                IN IF Cardinality(Tasks) = 2 THEN <<a, b>>
                   ELSE LET c == CHOOSE k \in Tasks \ {a, b} : TRUE IN <<a, b, c>>
=============================================================================
