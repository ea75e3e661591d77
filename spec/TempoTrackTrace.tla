------------------------------ MODULE TempoTrackTrace ------------------------------
(* TempoTrack: windows of win samples every lag samples; in each, beats a, a+p,      *)
(* a+2p, ... up to the next window, for a period p and the best aligned phase a.     *)
EXTENDS TraceBase, DspOps
VARIABLE env
tv == <<env, l>>
TraceInit == l = 1 /\ env = [win |-> 0, lag |-> 0]

Windows(n) == CeilDiv(n, env.lag)
InWindow(beats, j) ==      \* the beats of window j, relative to its start
  LET mine == SelectSeq(beats, LAMBDA b : b \div env.lag = j - 1)
  IN [k \in 1..Len(mine) |-> mine[k] % env.lag]
(* strength of phase o (0 based) for period p in the window starting at s: samples   *)
(* o, o+(p+1), ... weighted by the square of their closeness to the window's start   *)
At(df, i) == IF i < Len(df) THEN df[i + 1] ELSE 0
Strength(df, s, p, o) ==
  SumSeq([k \in 1..CeilDiv(env.win - o, p + 1) |->
            LET i == o + (k - 1) * (p + 1)  v == At(df, s + i)
            IN IF v = 0 THEN 0 ELSE v * (env.win - i) * (env.win - i)])
UniformBest(df, s, p, a) ==
  LET st == [o \in 1..p |-> Strength(df, s, p, o - 1)]
      m == MaxSeq(st)
  IN st[a + 1] = m
(* with a prediction only phases within the bell matter; a must beat every phase that *)
(* is at least as near the prediction                                                 *)
BellBest(df, s, p, a, pred) ==
  LET d(o) == Abs(o - pred + 1)
      sa == Strength(df, s, p, a)
  IN \A o \in 0..(p - 1) : (d(o) <= d(a) /\ o # a) => Strength(df, s, p, o) <= sa + sa \div 1000
(* the period and the tempo index k (0: none) of a window                            *)
TempoOK(p, k) == p <= 29 \/ p \in {k, k + 1}      \* shorter periods lie outside the tempi reported
KOK(k) == k = 0 \/ k \in 29..172
PeriodsOf(w) == IF Len(w) >= 2 THEN {w[2] - w[1]} ELSE MaxI(w[1] + 1, env.lag - w[1])..env.lag
WindowOK(df, j, w, last, k) ==
  /\ Len(w) > 0
  /\ \E p \in PeriodsOf(w) :
       /\ p \in 1..env.lag
       /\ w[1] < p
       /\ \A i \in 2..Len(w) : w[i] - w[i - 1] = p
       /\ w[Len(w)] + p >= env.lag
       /\ TempoOK(p, k)
       /\ LET s == (j - 1) * env.lag
              pred == last + p - s         \* where the last beat says the next falls
          IN \/ UniformBest(df, s, p, w[1])
             \/ j > 3 /\ last # 0 /\ pred >= 0 /\ BellBest(df, s, p, w[1], pred)

TrackOK(e) ==
  LET n == Len(e.df)  w == Windows(n)
  IN /\ e.same /\ e.kept
     /\ Len(e.t100) = w
     /\ \A i \in 1..Len(e.beats) : e.beats[i] \in 0..(w * env.lag - 1)
     /\ \A i \in 2..Len(e.beats) : e.beats[i] > e.beats[i - 1]
     /\ \A j \in 1..w :
          LET mine == InWindow(e.beats, j)
              prev == InWindow(e.beats, j - 1)
              last == IF prev = <<>> THEN 0 ELSE (j - 2) * env.lag + prev[Len(prev)]
          IN /\ KOK(e.k[j]) /\ (e.k[j] = 0 => e.t100[j] = 0)
             /\ (e.k[j] # 0 => Near(e.t100[j] * e.k[j], 516800, e.k[j]))
             /\ WindowOK(e.df, j, mine, last, e.k[j])

Step(e) ==
  CASE e.e = "Scenario" -> env' = [win |-> e.win, lag |-> e.lag]
    [] e.e = "Track" -> Holds(TrackOK(e)) /\ UNCHANGED env
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
