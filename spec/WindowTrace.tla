------------------------------- MODULE WindowTrace -------------------------------
(* Window shapes by their defining formulas, in 1/10000.                           *)
EXTENDS TraceBase, Trig
VARIABLES objs     \* [object |-> [kind, type / parameters, size, w |-> its shape, in 1/1000000]]
tv == <<objs, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ objs = None

(* ---- the fixed shapes: value i of n, i from 0, in 1/10000 ------------------------- *)
Scaled5(c, v) == RoundDiv(c * v, 100000)        \* c in 1/100000
Shape(type, i, n) ==
  CASE type = "rectangular" -> 5000
    [] type = "bartlett" ->
         (CASE n = 1 -> 10000 [] n = 2 -> 0 [] n = 3 -> IF i = 0 THEN 0 ELSE 6667
            [] OTHER -> LET h == n \div 2 IN IF i < h THEN RoundDiv(10000 * i, h) ELSE IF i < n - h THEN 10000 ELSE 10000 - RoundDiv(10000 * (i - (n - h)), h))
    [] n = 1 -> 10000
    [] type = "hamming" -> 5400 - Scaled5(46000, Cos(i, n))
    [] type = "hanning" -> 5000 - Scaled5(50000, Cos(i, n))
    [] type = "blackman" -> 4200 - Scaled5(50000, Cos(i, n)) + Scaled5(8000, Cos(2 * i, n))
    [] type = "blackman-harris" -> RoundDiv(35875, 10) - Scaled5(48829, Cos(i, n)) + Scaled5(14128, Cos(2 * i, n)) - Scaled5(1168, Cos(3 * i, n))
(* w in 1/1000000 against the formula; even about half their size; within [0,1]        *)
ShapeOK(type, n, w) ==
  /\ Len(w) = n
  /\ \A i \in 1..n : Near(RoundDiv(w[i], 100), Shape(type, i - 1, n), 4)
  /\ \A i \in 2..n : Near(w[i], w[n - i + 2], 1)
  /\ \A i \in 1..n : w[i] >= -1 /\ w[i] <= 1000001

(* ---- Kaiser windows ---------------------------------------------------------------- *)
(* the rounded-up quotient; either value where it is too close to call                  *)
IsCeil(v, num, den) == v = CeilDiv(num, den) \/ ((num % den <= 1 + num \div 2000000) /\ v = num \div den) \/ (den - (num % den) <= num \div 2000000 /\ v = num \div den + 2)
(* att: dB / 100, tr: samples / 1000                                                     *)
KLengthOK(att, tr, len) == IF att > 2100 THEN IsCeil(len - 1, (att - 795) * 10000, 2285 * tr) ELSE IsCeil(len - 1, 5790, tr)
(* a bandwidth of the rate's R-th part: tr = 2 pi / R                                     *)
KLengthBandOK(att, R, len) == IF att > 2100 THEN IsCeil(len - 1, (att - 795) * R * 1000, 1435708) ELSE IsCeil(len - 1, 57900 * R, 62832)
(* beta in 1/1000                                                                          *)
KBeta(att) == IF att > 5000 THEN RoundDiv(1102 * (att - 870), 1000)
              ELSE IF att <= 2100 THEN 0
              ELSE LET u == att - 2100 IN    \* 0.5842 u^0.4 + 0.07886 u
                   (IF u >= 100 THEN RoundDiv(584 * 10000, ExpNeg((4 * Ln(u, 100)) \div 10)) ELSE RoundDiv(584 * ExpNeg((4 * Ln(100, u)) \div 10), 10000))
                   + RoundDiv(7886 * u, 10000)
(* modified Bessel function of order 0 of x/1000, in 1/10000: sum of ((x/2)^i / i!)^2          *)
Bessel(x) == LET h == x \div 2 IN
  FoldLeft(LAMBDA acc, i : LET t == RoundDiv(acc.t * h, 1000 * i)
                           IN TLCEval([t |-> t, s |-> acc.s + (IF t < 40000 THEN (t * t) \div 100 ELSE (t \div 10) * (t \div 10))]),
           [t |-> 1000, s |-> 10000], <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19>>).s
(* 10000 sqrt(1 - k^2), k = 2i/(n-1) - 1                                                         *)
Arc(i, n) == LET k == IF n <= 1 THEN 0 ELSE RoundDiv(10000 * Abs(2 * i - (n - 1)), n - 1) IN SqrtI(100000000 - k * k)
KaiserAt(i, n, beta) == LET a == Bessel(RoundDiv(beta * Arc(i, n), 10000))  b == Bessel(beta) IN     \* beta in 1/1000; result 1/10000
                        IF b < 1000000 THEN RoundDiv(a * 1000, b) * 10 ELSE RoundDiv((a \div 30) * 1000, b \div 30) * 10
(* the same for larger arguments (to 19), in 1/100; h: half the argument in 1/5000             *)
BesselBig(h) ==
  FoldLeft(LAMBDA acc, i : LET t == IF acc.t < 45000 THEN (acc.t * h) \div (5000 * i) ELSE IF acc.t < 450000 THEN ((acc.t \div 10) * h) \div (500 * i) ELSE ((acc.t \div 40) * h) \div (125 * i)
                           IN TLCEval([t |-> t, s |-> acc.s + (IF t < 40000 THEN (t * t) \div 10000 ELSE IF t < 200000 THEN ((t \div 5) * (t \div 5)) \div 400
                                                              ELSE IF t < 1000000 THEN ((t \div 25) * (t \div 25)) \div 16 ELSE ((t \div 50) * (t \div 50)) \div 4)]),
           [t |-> 1000, s |-> 100], [i \in 1..20 |-> i]).s
(* sqrt(1 - k^2) in 1/32768, bit by bit, n <= 32768                                          *)
ArcBig(i, n) == LET b == (n - 1) * (n - 1)  a == 4 * i * (n - 1 - i) IN
  IF a = b THEN 32768
  ELSE SqrtI(FoldLeft(LAMBDA acc, k : IF 2 * acc[1] >= b THEN <<2 * acc[1] - b, 2 * acc[2] + 1>> ELSE <<2 * acc[1], 2 * acc[2]>>, <<a, 0>>, [k \in 1..30 |-> k])[2])
KaiserBigAt(i, n, beta) == LET a == BesselBig(RoundDiv(((beta * ArcBig(i, n)) \div 64) * 5, 1024))  b == BesselBig(RoundDiv(5 * beta, 2))
                           IN IF n = 1 THEN 10000 ELSE IF b < 20000000 THEN (a * 100) \div (b \div 100) ELSE a \div (b \div 10000)
KaiserOK(n, beta, w) ==
  /\ Len(w) = n
  /\ \A i \in 1..n : Near(w[i], w[n - i + 1], 1) /\ w[i] >= 0 /\ w[i] <= 1000001
  /\ \A i \in 1..(n - 1) : IF 2 * i < n THEN w[i + 1] >= w[i] - 1 ELSE w[i + 1] <= w[i] + 1
  /\ n % 2 = 1 => w[(n + 1) \div 2] >= 999999
  /\ beta > 10000 => \A i \in 1..n : Near(RoundDiv(w[i], 100), KaiserBigAt(i - 1, n, beta), 15)
  /\ beta <= 10000 => \A i \in 1..n : i * 40 > n * 3 => Near(RoundDiv(w[i], 100), KaiserAt(i - 1, n, beta), 25)

(* ---- sinc windows: period p/2 ------------------------------------------------------------ *)
SincNear(d, p) == LET q == RoundDiv(100000 * d, p)  y == RoundDiv(((q * q) \div 1000) * 15791, 100000) IN 10000 - RoundDiv(y, 6) + RoundDiv(y * y, 1200000)   \* by its series
SincAt(d, p) == IF d = 0 THEN 10000 ELSE IF 20 * d < p THEN SincNear(d, p) ELSE LET s == Sin(2 * d, p) IN RoundDiv(RoundDiv(s * p, 2 * d) * 1000, 6283)
SincOK(n, p, w) ==
  LET c == n \div 2 IN
  /\ Len(w) = MaxI(n, 0)
  /\ \A i \in 1..n : Near(RoundDiv(w[i], 100), SincAt(Abs(i - 1 - c), p), 6)
  /\ \A i \in 1..n : LET m == 2 * c - (i - 1) IN m + 1 \in 1..n => Near(w[i], w[m + 1], 1)
  /\ n >= 1 => w[c + 1] = 1000000
  /\ \A i \in 1..n : LET d == Abs(i - 1 - c) IN d > 0 /\ (4 * d) % p = 0 => Near(w[i], 0, 1)

SampleAt(e, i) == CASE e.kind = "shape" -> Shape(e.type, i, e.n)
                    [] e.kind = "kaiser" -> IF e.beta > 10000 THEN KaiserBigAt(i, e.n, e.beta) ELSE KaiserAt(i, e.n, e.beta)
                    [] e.kind = "sinc" -> SincAt(Abs(i - e.n \div 2), e.p)
LargeOK(e) == /\ Len(e.w) = Len(e.at) /\ NearSeq(e.cut, e.w, 0)
              /\ \A k \in 1..Len(e.at) : Near(RoundDiv(e.w[k], 100), SampleAt(e, e.at[k]), CASE e.kind = "shape" -> 4 [] e.kind = "kaiser" -> (IF e.beta > 10000 THEN 15 ELSE 25) [] e.kind = "sinc" -> 8)
(* dst in 1/1000, exactly src * w for whole src (|src| <= 100)                                  *)
CutOK(o, src, dst) == Len(dst) = Len(src) /\ Len(src) = o.size /\ \A i \in 1..Len(src) : Near(dst[i], RoundDiv(src[i] * o.w[i], 1000), 1)
ShapeFor(e) == CASE e.kind = "shape" -> ShapeOK(e.type, e.n, e.w)
                 [] e.kind = "kaiser" -> KaiserOK(e.n, e.beta, e.w)
                 [] e.kind = "sinc" -> SincOK(e.n, e.p, e.w)
Step(e) ==
  CASE e.e = "Scenario" -> objs' = None
    [] e.e = "New" -> /\ Holds(ShapeFor(e) /\ e.size = e.n)
                      /\ objs' = Put(objs, e.o, [kind |-> e.kind, type |-> e.type, size |-> e.n, w |-> e.w])
    [] e.e = "Copy" -> objs' = Put(objs, e.o, objs[e.from])
    [] e.e = "Assign" -> objs' = Put(objs, e.o, objs[e.from])
    [] e.e = "Gone" -> objs' = [k \in DOMAIN objs \ {e.o} |-> objs[k]]
    [] e.e = "Look" -> Holds(LET o == objs[e.o] IN e.size = o.size /\ e.type = o.type /\ NearSeq(e.w, o.w, 0)) /\ UNCHANGED objs
    [] e.e = "Cut" -> Holds(CutOK(objs[e.o], e.src, e.dst)) /\ UNCHANGED objs
    [] e.e = "Large" -> Holds(LargeOK(e)) /\ UNCHANGED objs
    [] e.e = "Params" -> Holds(KLengthOK(e.att, e.tr, e.len) /\ Near(e.beta, KBeta(e.att), 4) /\ e.got = e.len) /\ UNCHANGED objs
    [] e.e = "ParamsBand" -> Holds(KLengthBandOK(e.att, e.ratio, e.len) /\ Near(e.beta, KBeta(e.att), 4) /\ e.got = e.len) /\ UNCHANGED objs
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
