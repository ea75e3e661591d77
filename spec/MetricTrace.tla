------------------------------- MODULE MetricTrace -------------------------------
(* Distances, beat spectrum and auto-correlation, by their definitions.             *)
EXTENDS TraceBase, Trig
VARIABLES known    \* [<<measure, arguments>> |-> value in 1/10^6]: results depend on the arguments alone
tv == <<known, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ known = None
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
(* n / sqrt(p), in 1/10000, n^2 <= p *)
OverRoot(n, p) == LET k == CHOOSE k \in 0..15 : p * 4 ^ k < 2 ^ 30 /\ (k = 15 \/ p * 4 ^ k >= 2 ^ 28) IN RoundDiv(10000 * n * 2 ^ k, SqrtI(p * 4 ^ k))
Cosine(a, b) == IF Len(a) # Len(b) \/ Dot(a, a) = 0 \/ Dot(b, b) = 0 THEN 10000 ELSE 10000 - OverRoot(Dot(a, b), Dot(a, a) * Dot(b, b))
KLGauss(m1, v1, m2, v2) == SumSeq([i \in 1..Len(m1) |-> LET d == m1[i] - m2[i] IN
     RoundDiv(5000 * (v1[i] * v1[i] + v2[i] * v2[i] - 2 * v1[i] * v2[i] + d * d * (v1[i] + v2[i])), v1[i] * v2[i])])
(* distributions in 1/total; a zero counts as 10^-20; result in 1/10000                *)
Lg(a, b) == RoundDiv(Ln(a, b) * 4343, 10000)
KLTerm(a, b, total) == IF a = 0 THEN 0 ELSE IF b = 0 THEN a * (200000 + Lg(a, total)) ELSE a * Lg(a, b)
KLDist(p, q, total) == RoundDiv(SumSeq([i \in 1..Len(p) |-> KLTerm(p[i], q[i], total)]), total)
LagSum(m, k) == SumSeq([i \in 1..(Len(m) \div 2) |-> Cosine(m[i], m[i + k])])
BeatOK(e) ==
  LET sz == Len(e.m) \div 2  s == TLCEval([k \in 1..sz |-> LagSum(e.m, k)])  top == IF sz = 0 THEN 0 ELSE MaxSeq(s) IN
  /\ Len(e.v) = sz
  /\ IF top < 500 THEN \A k \in 1..sz : e.v[k] <= 1000
     ELSE \A k \in 1..sz : Near(e.v[k], RoundDiv(1000 * s[k], top), 2 + (4000 * sz) \div top)
AutoAt(x, i) == RoundDiv(1000 * SumSeq([j \in 1..(Len(x) - i) |-> x[j] * x[j + i]]), Len(x) - i)
AutoOK(e) == Len(e.d) = Len(e.x) /\ \A i \in 1..Len(e.x) : Near(e.d[i], MaxI(0, AutoAt(e.x, i - 1)), 1) /\ e.pos[i] = 1
Fits(key, v, sym) == /\ key \in DOMAIN known => Near(v, known[key], 1)
                     /\ sym \in DOMAIN known => Near(v, known[sym], 1)
Step(e) ==
  CASE e.e = "Scenario" -> known' = None
    [] e.e = "Cosine" -> /\ Holds(Near(RoundDiv(e.d, 100), Cosine(e.a, e.b), 4) /\ (e.a = e.b /\ Dot(e.a, e.a) > 0 => Near(e.d, 0, 1)) /\ e.d >= -1 /\ e.d <= 2000001)
                         /\ Holds(Len(e.a) # Len(e.b) => e.d = 1000000)
                         /\ Holds(Fits(<<"cos", e.a, e.b>>, e.d, <<"cos", e.b, e.a>>))
                         /\ Holds(Near(e.scaled, e.d, 1))                  \* the same after scaling both, however loud
                         /\ known' = Put(known, <<"cos", e.a, e.b>>, e.d)
    [] e.e = "Gauss" -> /\ Holds(Near(RoundDiv(e.d, 100), KLGauss(e.m1, e.v1, e.m2, e.v2), Len(e.m1) + 2) /\ e.d >= -1 /\ (e.m1 = e.m2 /\ e.v1 = e.v2 => Near(e.d, 0, 1)))
                        /\ Holds(Fits(<<"g", e.m1, e.v1, e.m2, e.v2>>, e.d, <<"g", e.m2, e.v2, e.m1, e.v1>>))
                        /\ known' = Put(known, <<"g", e.m1, e.v1, e.m2, e.v2>>, e.d)
    [] e.e = "Dist" -> LET t == SumSeq(e.p)  one == KLDist(e.p, e.q, t)  both == one + KLDist(e.q, e.p, t)  tol == 40 IN
                       /\ Holds(SumSeq(e.q) = t => e.d >= -1 /\ e.s >= -1)
                       /\ Holds(e.p = e.q => Near(e.d, 0, 1) /\ Near(e.s, 0, 1))
                       /\ Holds(Near(RoundDiv(e.d, 100), one, tol) /\ Near(RoundDiv(e.s, 100), both, 2 * tol))
                       /\ Holds(Fits(<<"s", e.p, e.q>>, e.s, <<"s", e.q, e.p>>))
                       /\ known' = Put(known, <<"s", e.p, e.q>>, e.s)
    [] e.e = "Beat" -> Holds(BeatOK(e)) /\ UNCHANGED known
    [] e.e = "Auto" -> Holds(AutoOK(e)) /\ UNCHANGED known
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
