-------------------------------- MODULE BeatTrace --------------------------------
(* Beat period tracking and beat placing (TempoTrackV2).                           *)
EXTENDS TraceBase, BeatOps
VARIABLE env
tv == <<env, l>>
TraceInit == l = 1 /\ env = [rate2 |-> 0, inc |-> 0]

(* ---- beat periods: one per analysis step of 128 samples, states are the lags    *)
(* 20..107, a move of d lags costs d^2/(2*8^2) (in ten-thousandths)                     *)
Low == 20  High == 107  StepLen == 128  WinLen == 512
Frames(n) == IF n <= WinLen THEN 0 ELSE CeilDiv(n - WinLen, StepLen)
LagCost(i, j) == (10000 * (i - j) * (i - j)) \div 128
PeriodOK(e) ==
  LET T == Frames(e.n)
      path == [t \in 1..T |-> e.bp[(t - 1) * StepLen + 1]]
      states == [t \in 1..T |-> path[t] - Low + 1]
      k == Len(e.before)
  IN /\ e.same
     /\ Len(e.L) = T
     /\ IF T < 2
        THEN /\ \A i \in 1..e.n : e.bp[i] = e.fill
             /\ e.tempi = e.before
        ELSE /\ \A t \in 1..T : path[t] \in Low..High
             /\ \A i \in 1..e.n : e.bp[i] = path[MinI(T, (i - 1) \div StepLen + 1)]
             /\ Len(e.tempi) = k + e.n /\ SubSeq(e.tempi, 1, k) = e.before
             /\ \A i \in 1..e.n : Near(e.tempi[k + i] * env.inc * e.bp[i], 3000 * env.rate2, env.inc * e.bp[i])
             /\ PathScore(e.init, e.L, LagCost, states) >= PathBest(e.init, e.L, LagCost) - 4 * T

(* ---- beats                                                                       *)
Tol == 120
WTable(e) == [mu \in {e.mus[k] : k \in 1..Len(e.mus)} |-> e.w[CHOOSE k \in 1..Len(e.mus) : e.mus[k] = mu]]
BeatsOK(e) ==
  LET k == Len(e.before)
      b == SubSeq(e.out, k + 1, Len(e.out))
      n == Len(e.df)
  IN /\ e.same
     /\ Len(e.out) >= k /\ SubSeq(e.out, 1, k) = e.before
     /\ IF n = 0 \/ Len(e.bp) = 0 THEN b = <<>>
        ELSE IF e.bp[1] = 0 THEN b = <<n - 1>>         \* no period was found
        ELSE LET W == WTable(e)
                 cum == CumAll(e.df, e.bp, e.a, W)
                 Good(i, lag) == BackScore(cum, i, lag, W[e.bp[i + 1]]) >= BestBack(cum, i, e.bp[i + 1], W[e.bp[i + 1]]) - Tol
                 first == MaxI(0, n - e.bp[Len(e.bp)])
             IN /\ Len(b) > 0
                /\ \A j \in 1..Len(b) : b[j] \in 0..(n - 1)
                /\ \A j \in 2..Len(b) : /\ b[j] - b[j - 1] \in Lags(e.bp[b[j] + 1])
                                        /\ Good(b[j], b[j] - b[j - 1])
                /\ b[Len(b)] >= first
                /\ cum[b[Len(b)] + 1] >= MaxSeq(SubSeq(cum, first + 1, n)) - Tol
                (* it goes back until the best predecessor is the first sample or before it *)
                /\ \E lag \in Lags(e.bp[b[1] + 1]) : b[1] - lag <= 0 /\ Good(b[1], lag)

Step(e) ==
  CASE e.e = "Scenario" -> env' = IF "rate2" \in DOMAIN e THEN [rate2 |-> e.rate2, inc |-> e.inc] ELSE env
    [] e.e = "Period" -> Holds(PeriodOK(e)) /\ UNCHANGED env
    [] e.e = "Beats" -> Holds(BeatsOK(e)) /\ UNCHANGED env
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
