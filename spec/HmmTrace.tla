-------------------------------- MODULE HmmTrace --------------------------------
(* Hidden Markov models with a shared Gaussian covariance.                         *)
EXTENDS TraceBase, Trig
VARIABLES m      \* the model in use: N, L, p, pw, a, aw, mu, cov by adj and det (integers)
tv == <<m, l>>
None == [i \in {} |-> 0]
TraceInit == l = 1 /\ m = None
Low == -100000000                      \* stands for the logarithm of zero
LnOr(a, b) == IF a = 0 THEN Low ELSE Ln(a, b)
(* covariances as <<v>>, <<c11, c12, c22>>, <<c11, c12, c13, c22, c23, c33>>: the           *)
(* matrix of cofactors in the same order, the determinant, the inverse as a matrix      *)
Adj(L, c) == IF L = 1 THEN <<1>> ELSE IF L = 2 THEN <<c[3], -c[2], c[1]>>
             ELSE <<c[4] * c[6] - c[5] * c[5], c[3] * c[5] - c[2] * c[6], c[2] * c[5] - c[3] * c[4],
                    c[1] * c[6] - c[3] * c[3], c[2] * c[3] - c[1] * c[5], c[1] * c[4] - c[2] * c[2]>>
Det(L, c) == LET a == Adj(L, c) IN SumSeq([k \in 1..L |-> c[k] * a[k]])
Index(L, i, j) == LET lo == MinI(i, j)  hi == MaxI(i, j) IN ((lo - 1) * (2 * L - lo + 2)) \div 2 + hi - lo + 1
(* (x-mu)' cov^-1 (x-mu), times u                                                       *)
QuadBy(L, a, det, d, u) ==
  IF L = 1 THEN RoundDiv(d[1] * d[1] * u, det)
  ELSE IF L = 2 THEN RoundDiv((a[1] * d[1] * d[1] + 2 * a[2] * d[1] * d[2] + a[3] * d[2] * d[2]) * u, det)
  ELSE LET s == a[1] * d[1] * d[1] + a[4] * d[2] * d[2] + a[6] * d[3] * d[3] + 2 * (a[2] * d[1] * d[2] + a[3] * d[1] * d[3] + a[5] * d[2] * d[3])
       IN (s \div det) * u + RoundDiv((s % det) * u, det)
Quad(L, c, d, u) == QuadBy(L, Adj(L, c), Det(L, c), d, u)
Diff(x, y) == [k \in 1..Len(x) |-> x[k] - y[k]]
(* logarithms in units of 1/u: u = 10000, or u = 1 for observations so improbable that     *)
(* their log likelihoods reach millions                                               *)
Emit(x, i, u) == -(QuadBy(m.L, m.adj, m.det, Diff(x, m.mu[i]), u) \div 2)       \* up to a common constant
InUnits(v, u) == IF v = Low THEN Low ELSE RoundDiv(v, 10000 \div u)
Start(i, u) == InUnits(LnOr(m.p[i], m.pw), u)
Move(i, j, u) == InUnits(LnOr(m.a[i][j], m.aw), u)
Sat(x) == MaxI(x, Low)
PathScore(x, q, u) == FoldLeft(LAMBDA s, t : Sat(s + Emit(x[t], q[t], u) + (IF t = 1 THEN Start(q[1], u) ELSE Move(q[t - 1], q[t], u))), 0, [t \in 1..Len(x) |-> t])
Best(x, u) == LET N == m.N
               moves == TLCEval([i \in 1..N |-> [j \in 1..N |-> Move(i, j, u)]])
               last == FoldLeft(LAMBDA v, t : [j \in 1..N |-> Sat(MaxSeq([i \in 1..N |-> Sat(v[i] + moves[i][j])]) + Emit(x[t], j, u))],
                                [i \in 1..N |-> Sat(Start(i, u) + Emit(x[1], i, u))], [t \in 1..(Len(x) - 1) |-> t + 1])
           IN MaxSeq(last)
(* ---- posteriors, by their definition over all paths ---------------------------- *)
Paths(N, T) == [1..T -> 1..N]
W(e, q) == LET T == Len(e.b) IN
           FoldLeft(LAMBDA w, t : w * e.b[t][q[t]] * (IF t = 1 THEN e.p[q[1]] ELSE e.a[q[t - 1]][q[t]]), 1, [t \in 1..T |-> t])
SumOver(e, P) == FoldLeft(LAMBDA acc, q : acc + W(e, q), 0, SetToSeq(P))
Share(x0, t0) == LET k == t0 \div 10000000 + 1  x == x0 \div k  t == t0 \div k     \* ten-thousandths, by long division
                 IN 100 * ((x * 100) \div t) + (((x * 100) % t) * 100) \div t
PostOK(e) == LET N == Len(e.p)  T == Len(e.b)  all == Paths(N, T)  total == SumOver(e, all) IN
   IF total = 0 THEN TRUE
   ELSE LET tol == 3 IN
        /\ \A t \in 1..T : \A i \in 1..N : Near(e.gamma[t][i], Share(SumOver(e, {q \in all : q[t] = i}), total), tol)
        /\ \A t \in 1..(T - 1) : \A i \in 1..N : \A j \in 1..N :
              Near(e.xi[t][(i - 1) * N + j], Share(SumOver(e, {q \in all : q[t] = i /\ q[t + 1] = j}), total), tol)
        /\ Near(e.loglik, Ln(total, 1) - T * Ln(10, 1), 30 + 10 * T)
(* ---- posteriors over many frames, by the recursion (PathImpl and HmmImpl check it against  *)
(* all paths); both directions scaled to a largest weight of about Top                     *)
Top == 40000
Scaled(v) == LET mx == MaxSeq(v)             \* v <= 12000000; by long division
             IN [i \in 1..Len(v) |-> LET h == v[i] * 40  k == (h % mx) * 40
                                     IN (h \div mx) * 1000 + (k \div mx) * 25 + RoundDiv((k % mx) * 25, mx)]
Fore(e) == LET N == Len(e.p) IN       \* sequence of <<scaled weights, log of the scale so far>>
   FoldLeft(LAMBDA acc, t : LET v == [j \in 1..N |-> e.b[t][j] * (IF t = 1 THEN e.p[j] * 1000 ELSE SumSeq([i \in 1..N |-> acc[t - 1][1][i] * e.a[i][j]]))]
                            IN Append(acc, TLCEval(<<Scaled(v), Ln(MaxSeq(v), Top) + (IF t = 1 THEN -Ln(1000, 1) ELSE acc[t - 1][2])>>)),
            <<>>, [t \in 1..Len(e.b) |-> t])
Aft(e) == LET N == Len(e.p)  T == Len(e.b) IN
   FoldLeft(LAMBDA acc, k : LET t == T - k IN <<TLCEval(Scaled([i \in 1..N |-> SumSeq([j \in 1..N |-> e.a[i][j] * e.b[t + 1][j] * acc[1][j]])]))>> \o acc,
            <<[i \in 1..N |-> Top]>>, [k \in 1..(T - 1) |-> k])
Shares(v, tot) == [i \in 1..Len(v) |-> Share(v[i], tot)]
(* The weights are integers, each some units off: the tolerance is what that makes in    *)
(* the shares of products x * y (of sum tot, both in units of 1/8)                       *)
Uncertain(xs, ys, tot) == 5 + (4 * (SumSeq(xs) + SumSeq(ys))) \div (tot \div 1250 + 1)
LongPostOK(e) ==
   LET N == Len(e.p)  T == Len(e.b)  f == Fore(e)  g == Aft(e)
       ok(xs, ys, got) == LET n == Len(xs)
                              want == TLCEval([k \in 1..n |-> (xs[k] * ys[k]) \div 8])
                              tot == SumSeq(want)
                              tol == Uncertain(xs, ys, tot)
                          IN \A k \in 1..n : Near(got[k], Share(want[k], tot), tol)
       from(t) == [k \in 1..(N * N) |-> (f[t][1][(k - 1) \div N + 1] * e.a[(k - 1) \div N + 1][((k - 1) % N) + 1]) \div 10]
       to(t) == [k \in 1..(N * N) |-> (e.b[t + 1][((k - 1) % N) + 1] * g[t + 1][((k - 1) % N) + 1]) \div 10]
   IN /\ \A t \in 1..T : ok(f[t][1], g[t], e.gamma[t])
      /\ \A t \in 1..(T - 1) : ok(TLCEval(from(t)), TLCEval(to(t)), e.xi[t])
      /\ Near(e.loglik, f[T][2] + Ln(SumSeq(f[T][1]), 1) - T * Ln(10, 1), 30 + 10 * T)
(* ---- re-estimation from given occupation (gamma, xi in thousandths) ------------- *)
Col(f, i) == [t \in 1..Len(f) |-> f[t][i]]
ReestOK(e) == LET N == e.N  T == Len(e.x)  L == e.L
                  occ(i) == SumSeq(Col(e.gamma, i))
                  occ1(i) == SumSeq(Col(SubSeq(e.gamma, 1, T - 1), i))
                  d(t, j, k) == e.x[t][k] - e.mu0[j][k]
              IN /\ e.p = e.gamma[1]
                 /\ \A i, j \in 1..N : Near(e.a[i][j], IF occ1(i) = 0 THEN 0 ELSE RoundDiv(1000 * SumSeq(Col(e.xi, (i - 1) * N + j)), occ1(i)), 1)
                 /\ \A i \in 1..N : \A k \in 1..L : Near(e.mu[i][k], RoundDiv(1000 * SumSeq([t \in 1..T |-> e.gamma[t][i] * e.x[t][k]]), occ(i)), 1)
                 /\ \A k1, k2 \in 1..L : Near(e.cov[(k1 - 1) * L + k2],
                       RoundDiv(SumSeq([j \in 1..N |-> SumSeq([t \in 1..T |-> e.gamma[t][j] * d(t, j, k1) * d(t, j, k2)])]), T), 2)
NonDecreasing(s, tol) == \A i \in 1..(Len(s) - 1) : s[i + 1] >= s[i] - tol
Distribution(v) == Near(SumSeq(v), 1000000, 20) /\ \A i \in 1..Len(v) : v[i] >= 0

Step(e) ==
  CASE e.e = "Scenario" -> m' = None
    [] e.e = "Model" -> m' = [N |-> e.N, L |-> e.L, p |-> e.p, pw |-> e.pw, a |-> e.a, aw |-> e.aw, mu |-> e.mu, adj |-> TLCEval(Adj(e.L, e.cov)), det |-> Det(e.L, e.cov)]
    [] e.e = "Viterbi" ->
         /\ Len(e.q) = Len(e.x) /\ Holds(\A t \in 1..Len(e.q) : e.q[t] \in 0..(m.N - 1))
         /\ Holds(LET best == Best(e.x, e.u) IN best < -90000000 \/ PathScore(e.x, [t \in 1..Len(e.q) |-> e.q[t] + 1], e.u) >= best - (IF e.u = 1 THEN 4 * Len(e.x) ELSE 20 + 4 * Len(e.x)))
         /\ UNCHANGED m
    [] e.e = "Gauss" ->
         LET det == Det(e.L, e.cov)  q == Quad(e.L, e.cov, Diff(e.x, e.mu), 10000) IN
         /\ e.det = 1000 * det
         /\ Holds(LET a == Adj(e.L, e.cov) IN \A i, j \in 1..e.L : Near(e.icov[(i - 1) * e.L + j], RoundDiv(a[Index(e.L, i, j)] * 1000000, det), 2))
         /\ Holds(Near(e.lg, -((q + e.L * 18379 + Ln(det, 1)) \div 2), 30))
         /\ Holds(e.lg < -80000 \/ Near(e.g, e.lg, 3))          \* gauss is the exponential of loggauss
         /\ UNCHANGED m
    [] e.e = "FB" -> Holds(PostOK(e)) /\ UNCHANGED m
    [] e.e = "LongFB" -> Holds(LongPostOK(e)) /\ UNCHANGED m
    [] e.e = "Reest" -> Holds(ReestOK(e)) /\ UNCHANGED m
    [] e.e = "InitModel" -> /\ Holds(Distribution(e.p)) /\ Holds(\A i \in 1..Len(e.a) : Distribution(e.a[i]))
                            /\ Holds(\A i \in 1..Len(e.off) : e.off[i] \in -250..250)
                            /\ Holds(NearSeq(e.cov, e.want, 1)) /\ UNCHANGED m
    [] e.e = "Train" -> /\ e.finite
                        /\ Holds(Distribution(e.p)) /\ Holds(\A i \in 1..Len(e.a) : Distribution(e.a[i]))
                        /\ e.after >= e.before - 2
                        /\ Holds(NonDecreasing(e.steps, 2))
                        /\ UNCHANGED m
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
