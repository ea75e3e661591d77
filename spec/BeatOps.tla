--------------------------------- MODULE BeatOps ---------------------------------
(* Max-plus path decoding and the beat-placing dynamic programme.                  *)
EXTENDS DspOps

(* ---- most probable path: init and L are logarithms, Trans(i, j) the cost of a   *)
(* move.  Viterbi gives the greatest score of any path ending in each state.       *)
PathStep(prev, row, Cost(_, _)) ==
  [j \in 1..Len(row) |-> row[j] + FoldLeft(MaxI, prev[1] - Cost(1, j), [i \in 1..Len(prev) |-> prev[i] - Cost(i, j)])]
PathBest(init, L, Cost(_, _)) ==
  LET first == [j \in 1..Len(init) |-> init[j] + L[1][j]]
      last == FoldLeft(LAMBDA acc, row : PathStep(acc, row, Cost), first, Tail(L))
  IN MaxSeq(last)
PathScore(init, L, Cost(_, _), p) ==
  SumSeq([t \in 1..Len(p) |-> L[t][p[t]] + (IF t = 1 THEN init[p[1]] ELSE -Cost(p[t - 1], p[t]))])

(* ---- beats: at sample i (from 0) the previous beat lies between half and twice  *)
(* the local period back.  Values in units of U per unit of detection function,    *)
(* weights in ten-thousandths, alpha in hundredths.                                 *)
U == 5000
HalfUp(p) == (p + 1) \div 2
Lags(mu) == HalfUp(mu)..(2 * mu)
(* score of stepping back by lag from sample i: nothing lies before the start      *)
BackScore(cum, i, lag, w) == IF i - lag >= 0 THEN (w[lag] * cum[i - lag + 1]) \div 10000 ELSE 0
BestBack(cum, i, mu, w) == FoldLeft(MaxI, 0, [k \in 1..(2 * mu - HalfUp(mu) + 1) |-> BackScore(cum, i, HalfUp(mu) + k - 1, w)])
CumAll(df, bp, alpha, W) ==
  FoldLeft(LAMBDA cum, v : LET i == Len(cum)  mu == bp[i + 1]
                           IN Append(cum, (alpha * BestBack(cum, i, mu, W[mu])) \div 100 + (100 - alpha) * v * (U \div 100)),
           <<>>, df)
=============================================================================
