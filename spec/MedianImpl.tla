------------------------------- MODULE MedianImpl -------------------------------
(* The moving median's sorted window: the value leaving is located by binary     *)
(* search and removed, the arriving one inserted.  Exhaustively checked to be    *)
(* the order statistic of the last N values.                                     *)
EXTENDS DspOps
CONSTANTS Sizes, Values, MaxSteps
VARIABLES size, frame, sorted, hist, n
vars == <<size, frame, sorted, hist, n>>
Lower(s, v) == CHOOSE i \in 1..(Len(s) + 1) : (\A j \in 1..(i - 1) : s[j] < v) /\ (i <= Len(s) => s[i] >= v)
DropV(s, v) == LET p == Lower(s, v) IN [i \in 1..(Len(s) - 1) |-> IF i < p THEN s[i] ELSE s[i + 1]]
PutV(s, v) == LET p == Lower(s, v) IN [i \in 1..(Len(s) + 1) |-> IF i < p THEN s[i] ELSE IF i = p THEN v ELSE s[i - 1]]
Init == size \in Sizes /\ frame = Zeros(size) /\ sorted = Zeros(size) /\ hist = Zeros(size) /\ n = 0
Push(v) == /\ n < MaxSteps
           /\ sorted' = PutV(DropV(sorted, frame[1]), v)
           /\ frame' = Append(Tail(frame), v)
           /\ hist' = Append(hist, v) /\ n' = n + 1 /\ UNCHANGED size
Reset == /\ n > 0 /\ frame' = Zeros(size) /\ sorted' = Zeros(size) /\ hist' = Zeros(size) /\ n' = 0 /\ UNCHANGED size
Next == Reset \/ \E v \in Values : Push(v)
Spec == Init /\ [][Next]_vars
LastN == SubSeq(hist, Len(hist) - size + 1, Len(hist))
IsStatistic == sorted = SortInts(LastN)
MCValues == {-1, 0, 1, 2}
=============================================================================
