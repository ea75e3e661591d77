------------------------------- MODULE MathTrace -------------------------------
(* Elementary helpers, by their mathematical definitions, on a buffer that in-place *)
(* operations change.                                                               *)
EXTENDS TraceBase, Trig
VARIABLES data     \* the buffer, whole numbers
tv == <<data, l>>
TraceInit == l = 1 /\ data = <<>>

Pow2 == {2 ^ k : k \in 0..30}
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
ModF(a, b) == a - b * FloorDiv(a, b)                        \* sign of b
RoundAway(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))   \* a/b, b > 0
Divides(d, a) == d > 0 /\ a % d = 0
IsGcd(g, a, b) == Divides(g, Abs(a)) /\ Divides(g, Abs(b)) /\ \A d \in 1..MinI(60, MaxI(Abs(a), Abs(b))) : Divides(d, Abs(a)) /\ Divides(d, Abs(b)) => g % d = 0
RECURSIVE Euclid(_, _)
Euclid(a, b) == IF b = 0 THEN a ELSE Euclid(b, a % b)
Fact == <<1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800, 39916800, 479001600>>
PowI(x, k) == IF k = 1 THEN x ELSE IF k = 2 THEN x * x ELSE x * x * x
SumPow(s, k) == SumSeq([i \in 1..Len(s) |-> PowI(Abs(s[i]), k)])
(* r, in 1/1000, is the k-th root of n/d                                             *)
RootOK(r, k, n, d) == CASE k = 1 -> Near(r, RoundDiv(1000 * n, d), 1)
                        [] k = 2 -> IF n <= 1000 THEN Near(r, SqrtI(RoundDiv(1000000 * n, d)), 2) ELSE Near(RoundDiv(r, 10), SqrtI(RoundDiv(10000 * n, d)), 2)
                        [] k = 3 -> LET q == RoundDiv(r, 10)  x == 1000 * RoundDiv(1000 * n, d)  q0 == MaxI(q - 1, 0) IN
                                    q >= 0 /\ q <= 1200 /\ q0 * q0 * q0 <= x + 1000 /\ (q + 1) * (q + 1) * (q + 1) >= x - 1000
ArgMax(s) == CHOOSE i \in 1..Len(s) : s[i] = MaxSeq(s) /\ \A j \in 1..(i - 1) : s[j] < s[i]
Rotate(s, k) == LET n == Len(s) IN [i \in 1..n |-> s[((i - 1 - k) % n) + 1]]
MeanOf(s) == IF Len(s) = 0 THEN 0 ELSE RoundDiv(1000 * SumSeq(s), Len(s))               \* 1/1000
Window(s, i) == SubSeq(s, MaxI(1, i - 8), MinI(Len(s), i + 7))
Threshold(s) == [i \in 1..Len(s) |-> MaxI(0, RoundDiv(1000 * (s[i] * Len(Window(s, i)) - SumSeq(Window(s, i))), Len(Window(s, i))))]
AbsMax(s) == FoldLeft(LAMBDA a, x : MaxI(a, Abs(x)), 0, s)
Normalised(s, type) ==     \* in 1/1000000
  LET d == CASE type = "none" -> 0 [] type = "sum" -> SumSeq(s) [] type = "max" -> AbsMax(s)
  IN [i \in 1..Len(s) |-> IF d = 0 THEN 1000000 * s[i] ELSE IF d > 0 THEN RoundDiv(1000000 * s[i], d) ELSE RoundDiv(-1000000 * s[i], -d)]
Sgn(x) == IF x < 0 THEN -1 ELSE 1
(* normalised by its p-norm, or the unit vector of that norm when below the threshold    *)
LpOK(e) ==
  IF Len(data) = 0 \/ e.p = 0 THEN e.out = [i \in 1..Len(data) |-> 1000 * data[i]]
  ELSE LET tot == SumPow(data, e.p) IN
       IF tot = 0 \/ e.below THEN \A i \in 1..Len(data) : RootOK(e.out[i], e.p, 1, Len(data))
       ELSE \A i \in 1..Len(data) : /\ e.out[i] # 0 => Sgn(e.out[i]) = Sgn(data[i])
                                  /\ RootOK(Abs(e.out[i]), e.p, PowI(Abs(data[i]), e.p), tot)

Step(e) ==
  CASE e.e = "Scenario" -> data' = <<>>
    [] e.e = "Set" -> data' = e.v
    [] e.e = "Pow2" -> /\ Holds(e.is = (e.x \in Pow2))
                       /\ Holds(e.x <= 2 ^ 30 => e.next = (IF e.x < 1 THEN 1 ELSE CHOOSE p \in Pow2 : p >= e.x /\ \A q \in Pow2 : q >= e.x => p <= q))
                       /\ Holds(e.prev = (IF e.x < 1 THEN 1 ELSE CHOOSE p \in Pow2 : p <= e.x /\ \A q \in Pow2 : q <= e.x => q <= p))
                       /\ Holds(e.x >= 1 /\ e.x <= 2 ^ 30 => e.near \in {e.next, e.prev} /\ Abs(e.near - e.x) <= Abs(e.next - e.x) /\ Abs(e.near - e.x) <= Abs(e.prev - e.x)
                                 /\ (e.next - e.x = e.x - e.prev => e.near = e.next))
                       /\ UNCHANGED data
    [] e.e = "Gcd" -> Holds(e.g = Euclid(e.a, e.b) /\ IsGcd(e.g, e.a, e.b)) /\ UNCHANGED data
    [] e.e = "Fact" -> Holds(IF e.x < 0 THEN e.f = 0 ELSE IF e.x <= 12 THEN e.f = Fact[e.x + 1] ELSE e.ratio = e.x) /\ UNCHANGED data
    [] e.e = "Round" -> Holds(e.r = RoundAway(e.num, e.den)) /\ UNCHANGED data
    [] e.e = "Mod" -> Holds(e.r = ModF(e.x, e.y)) /\ UNCHANGED data                                        \* eighths
    (* angles in 1/k of half a turn: the result differs by whole turns and lies between minus and plus half a turn *)
    [] e.e = "Princarg" -> Holds((e.r - e.a) % (2 * e.k) = 0 /\ e.r >= -e.k /\ e.r <= e.k) /\ UNCHANGED data
    [] e.e = "MinMax" -> Holds(IF Len(data) = 0 THEN e.min = 0 /\ e.max = 0 ELSE e.min = MinSeq(data) /\ e.max = MaxSeq(data)) /\ UNCHANGED data
    [] e.e = "Max" -> Holds(e.i = ArgMax(data) - 1 /\ e.iv = e.i /\ e.max = MaxSeq(data) /\ e.maxv = e.max /\ e.i0 = e.i) /\ UNCHANGED data
    [] e.e = "Sum" -> Holds(e.sum = SumSeq(data) /\ Near(e.mean, MeanOf(data), 1)) /\ UNCHANGED data
    [] e.e = "Range" -> Holds(Near(e.mean, MeanOf(SubSeq(data, e.start + 1, e.start + e.count)), 1)) /\ UNCHANGED data
    [] e.e = "Median" -> Holds(e.m2 = (IF Len(data) = 0 THEN 0 ELSE Median2(data))) /\ UNCHANGED data
    [] e.e = "Big" -> Holds(e.m2 = Median2(e.v) /\ e.min = MinSeq(e.v) /\ e.max = MaxSeq(e.v) /\ e.v[e.at + 1] = e.max /\ Near(e.mean, SumSeq(e.v) \div Len(e.v), 1)) /\ UNCHANGED data
    [] e.e = "Alpha" -> Holds(RootOK(e.r, e.alpha, SumPow(data, e.alpha), Len(data)) /\ e.rv = e.r) /\ UNCHANGED data
    [] e.e = "Lp" -> Holds(RootOK(e.r, e.p, SumPow(data, e.p), 1)) /\ UNCHANGED data
    [] e.e = "NormaliseLp" -> Holds(Len(e.out) = Len(data) /\ LpOK(e)) /\ UNCHANGED data
    [] e.e = "Normalise" -> Holds(NearSeq(e.out, Normalised(data, e.type), 1) /\ NearSeq(e.outv, e.out, 0)) /\ UNCHANGED data
    [] e.e = "Threshold" -> Holds(NearSeq(e.out, Threshold(data), 1)) /\ UNCHANGED data
    [] e.e = "Shift" -> Holds(e.out = Rotate(data, e.by)) /\ data' = e.out
    [] e.e = "Odd" -> Holds(e.nan = (e.x = "nan") /\ e.inf = (e.x \in {"inf", "-inf"})) /\ UNCHANGED data
    [] e.e = "Order" -> Holds(Sgn(e.c) = Sgn(e.a - e.b) /\ (e.c = 0) = (e.a = e.b)) /\ UNCHANGED data
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
