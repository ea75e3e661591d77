-------------------------------- MODULE ShareImpl --------------------------------
(* Why objects may share nothing they write.  Threads, one per object, run their       *)
(* operations step by step, interleaved anyhow.  An operation looks something up in a   *)
(* table that whoever comes first makes, works in scratch memory, and adds to what its   *)
(* object remembers.  Checked: every operation's result is what the object would have     *)
(* given alone, and every access is ordered with the others' (the condition that           *)
(* ShareTrace asks of the real code is Disjoint, and it is shown here to be enough:         *)
(* configurations that break it lose the results).                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objects, Calls, Width,
          Scratch,     \* "own" or "shared"
          Table        \* "constant", "guarded" (made under a lock) or "unguarded"
VARIABLES pc, calls, i, scratch, mem, out, table, made, lock, readers, writers
vars == <<pc, calls, i, scratch, mem, out, table, made, lock, readers, writers>>
Where(o) == IF Scratch = "own" THEN o ELSE 0
Places == (Objects \cup {0}) \X (1..Width)
Entry(k) == 10 + k
Input(o, c, k) == 3 * o + 2 * c + k
(* what object o gives for its c-th call when it is alone *)
RECURSIVE Sum(_, _, _)
Sum(o, c, k) == IF k = 0 THEN 0 ELSE Input(o, c, k) * Entry(k) + Sum(o, c, k - 1)
RECURSIVE Alone(_, _)
Alone(o, c) == IF c = 0 THEN 0 ELSE Alone(o, c - 1) \div 2 + Sum(o, c, Width)
Init == /\ pc = [o \in Objects |-> "start"] /\ calls = [o \in Objects |-> 0] /\ i = [o \in Objects |-> 0]
        /\ scratch = [p \in Places |-> 0] /\ mem = [o \in Objects |-> 0] /\ out = [o \in Objects |-> <<>>]
        /\ table = [k \in 1..Width |-> IF Table = "constant" THEN Entry(k) ELSE 0] /\ made = (Table = "constant") /\ lock = 0
        /\ readers = [p \in Places \cup {<<-1, k>> : k \in 1..Width} \cup {<<-2, 0>>} |-> {}]
        /\ writers = readers
Saw(p, o) == readers' = [readers EXCEPT ![p] = @ \cup {o}] /\ UNCHANGED writers
Wrote(p, o) == writers' = [writers EXCEPT ![p] = @ \cup {o}] /\ UNCHANGED readers
Quiet == UNCHANGED <<readers, writers>>
Go(o, s) == pc' = [pc EXCEPT ![o] = s]
Start(o) ==
  /\ pc[o] = "start" /\ calls[o] < Calls
  /\ calls' = [calls EXCEPT ![o] = @ + 1] /\ i' = [i EXCEPT ![o] = 1]
  /\ CASE Table = "constant" -> Go(o, "fill") /\ Quiet /\ UNCHANGED lock
       [] Table = "guarded" -> lock = 0 /\ Quiet /\ IF made THEN Go(o, "fill") /\ UNCHANGED lock ELSE Go(o, "make") /\ lock' = o
       [] OTHER -> Saw(<<-2, 0>>, o) /\ UNCHANGED lock /\ Go(o, IF made THEN "fill" ELSE "flag")
  /\ UNCHANGED <<scratch, mem, out, table, made>>
(* the careless form: says it is made, then makes it *)
Flag(o) == /\ pc[o] = "flag" /\ made' = TRUE /\ Wrote(<<-2, 0>>, o) /\ Go(o, "make")
           /\ UNCHANGED <<calls, i, scratch, mem, out, table, lock>>
Make(o) ==
  /\ pc[o] = "make"
  /\ IF i[o] <= Width
     THEN /\ table' = [table EXCEPT ![i[o]] = Entry(i[o])] /\ i' = [i EXCEPT ![o] = @ + 1]
          /\ (IF Table = "guarded" THEN Quiet ELSE Wrote(<<-1, i[o]>>, o)) /\ UNCHANGED <<pc, made, lock>>
     ELSE /\ made' = TRUE /\ lock' = (IF lock = o THEN 0 ELSE lock) /\ i' = [i EXCEPT ![o] = 1] /\ Go(o, "fill") /\ Quiet /\ UNCHANGED table
  /\ UNCHANGED <<calls, scratch, mem, out>>
Fill(o) ==
  /\ pc[o] = "fill"
  /\ IF i[o] <= Width
     THEN /\ scratch' = [scratch EXCEPT ![<<Where(o), i[o]>>] = Input(o, calls[o], i[o])] /\ Wrote(<<Where(o), i[o]>>, o)
          /\ i' = [i EXCEPT ![o] = @ + 1] /\ UNCHANGED <<pc, mem>>
     ELSE /\ i' = [i EXCEPT ![o] = 1] /\ mem' = [mem EXCEPT ![o] = @ \div 2] /\ Go(o, "take") /\ Quiet /\ UNCHANGED scratch
  /\ UNCHANGED <<calls, out, table, made, lock>>
Take(o) ==
  /\ pc[o] = "take"
  /\ IF i[o] <= Width
     THEN /\ mem' = [mem EXCEPT ![o] = @ + scratch[<<Where(o), i[o]>>] * table[i[o]]]
          /\ readers' = [readers EXCEPT ![<<Where(o), i[o]>>] = @ \cup {o}, ![<<-1, i[o]>>] = @ \cup {o}] /\ UNCHANGED writers
          /\ i' = [i EXCEPT ![o] = @ + 1] /\ UNCHANGED <<pc, out>>
     ELSE /\ out' = [out EXCEPT ![o] = Append(@, mem[o])] /\ Go(o, "start") /\ Quiet /\ UNCHANGED <<i, mem>>
  /\ UNCHANGED <<calls, scratch, table, made, lock>>
Next == \E o \in Objects : Start(o) \/ Flag(o) \/ Make(o) \/ Fill(o) \/ Take(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AsAlone == \A o \in Objects : \A c \in 1..Len(out[o]) : out[o][c] = Alone(o, c)
Disjoint == \A p \in DOMAIN readers : writers[p] = {} \/ Cardinality(readers[p] \cup writers[p]) <= 1
AllDone == <>(\A o \in Objects : Len(out[o]) = Calls)
=============================================================================
