------------------------------- MODULE MfccTrace -------------------------------
(* Mel-frequency cepstral coefficients, by their definition.                       *)
EXTENDS TraceBase, Trig
VARIABLES objs,    \* [object |-> its configuration]
          seen     \* [<<object's configuration, entry, frame>> |-> coefficients]
tv == <<objs, seen, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ objs = None /\ seen = None

(* Edges of the bands in mHz: 13 spaced linearly, then 29 geometrically; band j      *)
(* rises from Edges[j] to Edges[j+1] and falls to Edges[j+2]                         *)
Edges == <<66667, 133333, 200000, 266667, 333333, 400000, 466667, 533333, 600000, 666667, 733333, 800000, 866667,
           928348, 994418, 1065191, 1141001, 1222207, 1309192, 1402367, 1502174, 1609084, 1723603, 1846273, 1977672, 2118424, 2269193, 2430692, 2603685, 2788990, 2987483, 3200103, 3427856, 3671817, 3933142, 4213065, 4512910, 4834095, 5178139, 5546668, 5941426, 6364280>>
Bands == 40
ASSUME Len(Edges) = Bands + 2
ASSUME \A i \in 1..13 : Near(Edges[i], RoundDiv(200000 * i, 3), 1)
ASSUME \A i \in 13..41 : Near(Edges[i + 1], Edges[i] + ((Edges[i] \div 10) * 711) \div 1000 + (Edges[i] \div 100000) * 7, 110)

(* place of bin b: rate*b/size, in mHz                                               *)
BinAt(o, b) == LET q == (o.rate * b) \div o.size  r == (o.rate * b) % o.size IN 1000 * q + (1000 * r) \div o.size
(* height of band j at frequency f relative to its peak, in 1/4096                    *)
Tri(j, f) == LET lo == Edges[j]  c == Edges[j + 1]  up == Edges[j + 2] IN
             IF f <= lo \/ f >= up THEN 0 ELSE IF f <= c THEN ((f - lo) * 4096) \div (c - lo) ELSE ((up - f) * 4096) \div (up - c)
(* what neighbouring bands add up to, and where they peak                             *)
ASSUME \A j \in 2..(Bands - 1) : Tri(j, Edges[j + 1]) = 4096 /\ Tri(j - 1, Edges[j + 1]) = 0 /\ Tri(j + 1, Edges[j + 1]) = 0
ASSUME \A j \in 1..(Bands - 1) : LET f == (Edges[j + 1] + Edges[j + 2]) \div 2 IN Near(Tri(j, f) + Tri(j + 1, f), 4096, 2)

Mag(a, b) == SqrtI(a * a + b * b)
Weights(e, o, j) == [i \in 1..Len(e.bin) |-> IF 2 * e.bin[i] >= o.size THEN 0 ELSE Tri(j, BinAt(o, e.bin[i]))]
Total(e, w) == SumSeq([i \in 1..Len(w) |-> w[i] * Mag(e.re[i], e.im[i])])
Touch(e, w) == SumSeq([i \in 1..Len(w) |-> IF w[i] = 0 THEN 0 ELSE Mag(e.re[i], e.im[i])])
(* log10 of a band's sum in 1/1000: its triangle has unit area; the spectrum is given  *)
(* in units of 10^dec                                                                   *)
Log10(a, b) == RoundDiv(RoundDiv(Ln(a, b) * 4343, 1000), 100)
Ear(e, o, j) ==
  LET w == Weights(e, o, j)  s == Total(e, w)  t == Touch(e, w)
      v == 1000 * e.dec + Log10(s, 4096) + 301 - Log10(RoundDiv(Edges[j + 2] - Edges[j], 10), 100)
  IN IF s = 0 THEN [v |-> 0, tol |-> 0]
     ELSE IF o.power = 1 THEN [v |-> v, tol |-> 2 + (434 * t) \div s]
     ELSE IF o.power = 3 THEN [v |-> RoundDiv(RoundDiv(v * v, 1000) * v, 1000), tol |-> 4 + (((3 * (Abs(v) \div 10 + 1) * (Abs(v) \div 10 + 1)) \div 1000 + 1) * (2 + (434 * t) \div s)) \div 10]
     ELSE [v |-> RoundDiv(v * v, 1000), tol |-> 2 + ((2 * Abs(v) + 3) * (2 + (434 * t) \div s)) \div 1000]
Ears(e, o) == TLCEval([j \in 1..Bands |-> Ear(e, o, j)])
(* coefficient i of the orthonormal cosine transform, in 1/1000                        *)
Coef(ear, i) ==
  LET s == RoundDiv(SumSeq([j \in 1..Bands |-> RoundDiv(ear[j].v * RoundDiv(Cos(i * (2 * j - 1), 160), 10), 10)]), 100)
      k == IF i = 0 THEN 1581 ELSE 2236
  IN RoundDiv((s \div 100) * k + ((s % 100) * k) \div 100, 100)
CepsOK(e, o) ==
  LET ear == Ears(e, o)  tol == 5 + SumSeq([j \in 1..Bands |-> ear[j].tol]) \div 4 + (IF o.power = 3 THEN SumSeq([j \in 1..Bands |-> Abs(ear[j].v)]) \div 5000 ELSE 0)
      first == IF o.c0 THEN 0 ELSE 1  n == o.nceps + 1 - first
  IN Len(e.ceps) = n /\ \A i \in 1..n : Near(e.ceps[i], Coef(ear, i - 1 + first), tol)
(* coefficients k times louder than others, g = 1000 log10 of the factor                *)
ShiftOK(e, o) ==
  \A i \in 1..Len(e.a) : IF o.c0 /\ i = 1 THEN Near(e.b[1] - e.a[1], (e.g * 63246) \div 10000, 4) ELSE Near(e.b[i], e.a[i], 2)

Step(e) ==
  CASE e.e = "Scenario" -> objs' = None /\ seen' = None
    [] e.e = "New" -> /\ e.length = e.size
                      /\ objs' = Put(objs, e.o, [rate |-> e.rate, size |-> e.size, nceps |-> e.nceps, c0 |-> e.c0, power |-> e.power, win |-> e.win]) /\ UNCHANGED seen
    [] e.e = "Gone" -> objs' = [k \in DOMAIN objs \ {e.o} |-> objs[k]] /\ UNCHANGED seen
    [] e.e = "Cepstrum" -> Holds(e.ret = objs[e.o].nceps /\ CepsOK(e, objs[e.o])) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Louder" -> Holds(ShiftOK(e, objs[e.o])) /\ UNCHANGED <<objs, seen>>
    (* time-domain entry against frequency-domain entry, and a frame seen before; in 1/1000000 *)
    [] e.e = "Frame" -> LET k == <<objs[e.o], e.frame>> IN
                        /\ Holds(Len(e.ceps) = objs[e.o].nceps + (IF objs[e.o].c0 THEN 1 ELSE 0))
                        /\ Holds(\A i \in 1..Len(e.ceps) : Abs(e.ceps[i]) < 1000000000)
                        /\ Holds(k \in DOMAIN seen => NearSeq(e.ceps, seen[k], 20))
                        /\ seen' = Put(seen, k, e.ceps) /\ UNCHANGED objs
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
