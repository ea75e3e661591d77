------------------------------- MODULE BeatPathImpl -------------------------------
(* The beat-placing dynamic programme as the code performs it: cumulative score     *)
(* and best predecessor per sample, start at the best of the last period's samples, *)
(* read back until the start is reached.  alpha = 1/2; a step of exactly the local  *)
(* period weighs 1, any other 1/2.  Scores in units of 4^n.                         *)
EXTENDS DspOps, TLC
CONSTANTS Len0, Vals, Periods
VARIABLES v, per, cum, back, path
vars == <<v, per, cum, back, path>>
n == Len0
S == 4 ^ n
HalfUp(p) == (p + 1) \div 2
Lags(p) == HalfUp(p)..(2 * p)
W2(lag, p) == IF lag = p THEN 2 ELSE 1                      \* twice the weight
Cand(i, lag) == IF i - lag >= 0 THEN W2(lag, per[i]) * cum[i - lag + 1] ELSE 0
(* candidates are searched from the furthest back                                    *)
BestLag(i) == CHOOSE lag \in Lags(per[i]) : /\ \A m \in Lags(per[i]) : Cand(i, m) <= Cand(i, lag)
                                            /\ \A m \in Lags(per[i]) : m > lag => Cand(i, m) < Cand(i, lag)
Init == /\ v \in [0..(n - 1) -> Vals] /\ per \in [0..(n - 1) -> Periods]
        /\ cum = <<>> /\ back = <<>> /\ path = <<>>
Fill == LET i == Len(cum) IN
        /\ i < n
        /\ cum' = Append(cum, Cand(i, BestLag(i)) \div 4 + (S * v[i]) \div 2)
        /\ back' = Append(back, i - BestLag(i)) /\ UNCHANGED <<v, per, path>>
Tail0 == MaxI(0, n - per[n - 1])
Start == /\ Len(cum) = n /\ path = <<>>
         /\ path' = <<CHOOSE b \in Tail0..(n - 1) : \A c \in Tail0..(n - 1) : cum[c + 1] <= cum[b + 1] /\ (c < b => cum[c + 1] < cum[b + 1])>>
         /\ UNCHANGED <<v, per, cum, back>>
Back == /\ path # <<>> /\ back[path[1] + 1] > 0
        /\ path' = <<back[path[1] + 1]>> \o path /\ UNCHANGED <<v, per, cum, back>>
Next == Fill \/ Start \/ Back
Spec == Init /\ [][Next]_vars

(* every beat path that ends at b, scored on its own                                 *)
PathsTo[b \in 0..(n - 1)] == {<<b>>} \cup UNION {{Append(p, b) : p \in PathsTo[b - lag]} : lag \in {x \in 1..(2 * CHOOSE m \in Periods : \A q \in Periods : q <= m) : x <= b}}
Legal(p) == \A k \in 2..Len(p) : p[k] - p[k - 1] \in Lags(per[p[k]])
Score(p) == FoldLeft(LAMBDA acc, k : (IF k = 1 THEN 0 ELSE W2(p[k] - p[k - 1], per[p[k]]) * acc) \div 4 + (S * v[p[k]]) \div 2, 0, [k \in 1..Len(p) |-> k])
CumIsBest == Len(cum) > 0 => LET b == Len(cum) - 1 IN
               /\ \A p \in PathsTo[b] : Legal(p) => Score(p) <= cum[b + 1]
               /\ \E p \in PathsTo[b] : Legal(p) /\ Score(p) = cum[b + 1]
Done == path # <<>> /\ back[path[1] + 1] <= 0
(* the reported path, with sample 0 in front where it is the best predecessor        *)
Whole == IF back[path[1] + 1] = 0 THEN <<0>> \o path ELSE path
PathIsBest == Done => /\ Legal(path) /\ Score(Whole) = cum[path[Len(path)] + 1]
Increasing == \A k \in 2..Len(path) : path[k - 1] < path[k]
InRange == \A k \in 1..Len(path) : path[k] \in 0..(n - 1)
=============================================================================
