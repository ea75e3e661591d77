------------------------------- MODULE PolyTrace -------------------------------
(* A polynomial fit is the least-squares one exactly when its residuals are        *)
(* orthogonal to every power it may use.                                           *)
EXTENDS TraceBase, Trig
tv == <<l>>
TraceInit == l = 1
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN 1 ELSE x * PowI(x, k - 1)
(* coefficients in 1/10000, places and values in the units they were given in       *)
Residuals(e) == TLCEval([i \in 1..Len(e.x) |-> SumSeq([j \in 1..Len(e.c) |-> e.c[j] * PowI(e.x[i], j - 1)]) - 10000 * e.y[i]])
Slack(e, i) == SumSeq([j \in 1..Len(e.c) |-> PowI(Abs(e.x[i]), j - 1)])          \* two half units of every coefficient
Orthogonal(e, r, k) == Abs(SumSeq([i \in 1..Len(r) |-> r[i] * PowI(e.x[i], k)])) <= SumSeq([i \in 1..Len(r) |-> Slack(e, i) * PowI(Abs(e.x[i]), k)]) + 1
(* fit quality in 1/1000: the root of what is left of one after the residual part of the variance *)
Quality(e, r) ==
  LET n == Len(r)  t == n * SumSeq([i \in 1..n |-> e.y[i] * e.y[i]]) - SumSeq(e.y) * SumSeq(e.y)      \* n times the variation
      s == SumSeq([i \in 1..n |-> LET q == RoundDiv(r[i], 100) IN q * q])                              \* in 1/10000
  IN IF t = 0 THEN 1000 ELSE LET f == RoundDiv(n * s, t) IN IF f >= 10000 THEN 0 ELSE SqrtI(100 * (10000 - f))
(* the same of the fitted values at places in quarters, with (x/4)^k in 1/4096             *)
Pow4(x, k) == LET w == (PowI(Abs(x), MinI(k, 6)) * 4096) \div (4 ^ MinI(k, 6))                   \* |x| <= 4, k <= 8
                  v == IF k <= 6 THEN w ELSE (w * PowI(Abs(x), k - 6)) \div (4 ^ (k - 6))
              IN IF x < 0 /\ k % 2 = 1 THEN -v ELSE v
ValuesOK(e) == LET n == Len(e.x)  r == [i \in 1..n |-> e.f[i] - 1000 * e.y[i]] IN
  /\ \A k \in 0..(e.terms - 1) : Abs(SumSeq([i \in 1..n |-> r[i] * Pow4(e.x[i], k)])) <= n * 4096 + SumSeq([i \in 1..n |-> Abs(r[i])])
  /\ e.terms = n => \A i \in 1..n : Abs(r[i]) <= 1
Step(e) ==
  CASE e.e = "Scenario" -> TRUE
    [] e.e = "Fit" -> LET r == Residuals(e) IN
                      /\ Holds(\A k \in 0..(Len(e.c) - 1) : Orthogonal(e, r, k))
                      /\ Holds(Len(e.c) = Len(e.x) => \A i \in 1..Len(e.x) : Abs(r[i]) <= Slack(e, i))
                      /\ Holds(LET q == Quality(e, r) IN Near((e.q * e.q) \div 1000, (q * q) \div 1000, 12))
    [] e.e = "Values" -> Holds(ValuesOK(e))
    [] e.e = "Declined" -> Holds((e.terms < 1 \/ e.nx < 2 \/ e.nx # e.ny) /\ e.q = 0 /\ e.c = e.before)
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
