------------------------------- MODULE TonalTrace -------------------------------
(* Tonal centroids, the gram of centroids over time, and the change measure.      *)
EXTENDS TraceBase, Trig
VARIABLES gram     \* [g |-> [d4 |-> frame duration in quarter ms, v |-> <<[t, x]>>]]
tv == <<gram, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ gram = None

(* Circles of fifths (radius 1), major thirds (0.6) and minor thirds (1.1)         *)
Basis == TLCEval(<<[p \in 1..12 |-> Sin(7 * (p - 1), 12)], [p \in 1..12 |-> Cos(7 * (p - 1), 12)],
           [p \in 1..12 |-> (6 * Sin(p - 1, 3)) \div 10], [p \in 1..12 |-> (6 * Cos(p - 1, 3)) \div 10],
           [p \in 1..12 |-> (11 * Sin(3 * (p - 1), 4)) \div 10], [p \in 1..12 |-> (11 * Cos(3 * (p - 1), 4)) \div 10]>>)
Centroid(c) == [i \in 1..6 |-> SumSeq([p \in 1..12 |-> Basis[i][p] * c[p]])]     \* times 10000
L1(c) == SumAbs(c)
Scaled1(c) == [p \in 1..12 |-> IF L1(c) = 0 THEN 0 ELSE RoundDiv(c[p] * 10000, L1(c))]

(* Gaussian of width 2w+1 = twice its half-maximum width, in 1/10000:               *)
(* sigma = (2w+1)/4.7096                                                           *)
Gauss(w) == TLCEval([x \in (-w)..w |->
              RoundDiv(ExpNeg(RoundDiv(x * x * 110902, (2 * w + 1) * (2 * w + 1))) * 18789, (2 * w + 1) * 10000)])
Smoothed(v, w) ==
  LET n == Len(v)  g == Gauss(w)
  IN TLCEval([i \in 1..n |-> [j \in 1..6 |-> RoundDiv(SumSeq([k \in 1..(MinI(n, i + w) - MaxI(1, i - w) + 1) |->
                    LET p == MaxI(1, i - w) + k - 1 IN g[p - i] * v[p].x[j]]), 100)]])     \* times 100
Dist(a, b) == SqrtI(SumSeq([j \in 1..6 |-> ((a[j] - b[j]) \div 10) * ((a[j] - b[j]) \div 10)]))     \* times 10
Change(v, w) == LET s == Smoothed(v, w)  at(i) == IF i < 1 \/ i > Len(v) THEN Zeros(6) ELSE s[i]
                IN [i \in 1..Len(v) |-> Dist(at(i + 1), at(i - 1))]
Step(e) ==
  CASE e.e = "Scenario" -> gram' = None
    [] e.e = "Transform" -> /\ Holds(\A i \in 1..6 : Near(e.t[i], Centroid(e.c)[i] \div 10, 150))
                            /\ Near(e.mag, SqrtI(SumSeq([i \in 1..6 |-> (e.t[i] \div 100) * (e.t[i] \div 100)])), 4)
                            /\ UNCHANGED gram
    [] e.e = "Normalised" -> LET s == Scaled1(e.c) IN
         /\ Holds(NearSeq(e.out, s, 1)) /\ Holds(\A i \in 1..6 : Near(e.t[i], Centroid(s)[i] \div 10000, 12)) /\ UNCHANGED gram
    [] e.e = "NewGram" -> gram' = Put(gram, e.g, [d4 |-> 0, v |-> <<>>])
    [] e.e = "SetDuration" -> gram' = Put(gram, e.g, [gram[e.g] EXCEPT !.d4 = e.d4])
    [] e.e = "Clear" -> gram' = Put(gram, e.g, [gram[e.g] EXCEPT !.v = <<>>])
    [] e.e = "Add" -> LET o == gram[e.g]  n == Len(o.v) IN
         /\ e.size = n + 1 /\ gram' = Put(gram, e.g, [o EXCEPT !.v = Append(o.v, [t |-> (n * o.d4) \div 4, x |-> e.v])])
    [] e.e = "Get" -> LET o == gram[e.g] IN e.v = (IF e.i < 0 \/ e.i >= Len(o.v) THEN Zeros(6) ELSE o.v[e.i + 1].x) /\ UNCHANGED gram
    [] e.e = "Times" -> LET o == gram[e.g] IN /\ e.t = [i \in 1..Len(o.v) |-> o.v[i].t] /\ e.size = Len(o.v)
                                              /\ e.dur = (Len(o.v) * o.d4) \div 4 /\ UNCHANGED gram
    [] e.e = "Change" -> Holds(NearSeq(e.d, Change(gram[e.g].v, e.w), 8)) /\ UNCHANGED gram
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
