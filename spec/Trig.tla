--------------------------------- MODULE Trig ---------------------------------
(* Circular functions, logarithms and square roots in fixed point, so that the  *)
(* specifications can state transforms and windows by their defining formulas.  *)
(* Angles are k/m of a whole turn; values are in units of 1/10000 (error < 1). *)
EXTENDS DspOps, TLC

TS == 30000
RoundDiv(a, b) == (2 * a + b) \div (2 * b)            \* b > 0
(* x: angle in units of 1/30000 radian, at most an eighth of a turn             *)
SinSmall(x) == LET x2 == RoundDiv(x * x, TS)
                   a == TS - RoundDiv(x2, 42)
                   b == TS - RoundDiv(RoundDiv(x2 * a, TS), 20)
               IN RoundDiv(x * (TS - RoundDiv(RoundDiv(x2 * b, TS), 6)), TS)
CosSmall(x) == LET x2 == RoundDiv(x * x, TS)
                   a == TS - RoundDiv(x2, 30)
                   b == TS - RoundDiv(RoundDiv(x2 * a, TS), 12)
               IN TS - RoundDiv(RoundDiv(x2 * b, TS), 2)
Ang(r, m) == IF r < 5000 THEN RoundDiv(188496 * r, m)                                    \* r/m of a turn, r < 40000
             ELSE LET q == (23562 * r) \div m IN 8 * q + RoundDiv(8 * (23562 * r - q * m), m)
(* k within the first quarter turn: 0 <= 4k <= m                                 *)
CosQ(k, m) == IF 8 * k <= m THEN CosSmall(Ang(k, m)) ELSE SinSmall(Ang(m - 4 * k, 4 * m))
Cos30(k0, m) == LET k1 == k0 % m  k == IF 2 * k1 <= m THEN k1 ELSE m - k1
                IN IF 4 * k <= m THEN CosQ(k, m) ELSE -CosQ(m - 2 * k, 2 * m)
Cos(k, m) == RoundDiv(Cos30(k, m), 3)
Sin(k, m) == IF m % 4 = 0 THEN Cos(k - m \div 4, m) ELSE Cos(4 * k - m, 4 * m)
CosTable(m) == TLCEval([k \in 0..(m - 1) |-> Cos(k, m)])
SinTable(m) == TLCEval([k \in 0..(m - 1) |-> Sin(k, m)])

(* ---- square root (floor), for 0 <= x < 2^31 ---------------------------------- *)
SqrtI(x) == FoldLeft(LAMBDA r, k : LET c == r + 2 ^ k IN IF c <= 46340 /\ c * c <= x THEN c ELSE r,
                     0, <<15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0>>)

(* ---- logarithm to base 2 of a/b (a, b > 0), in units of 1/8192 ----------------- *)
Bits == [k \in 1..13 |-> k]
Frac2(m0) ==   \* m in [1,2) in units of 1/32768; squaring yields one bit at a time
  FoldLeft(LAMBDA acc, k : LET q == (acc.m * (acc.m \div 2)) \div 16384 IN
                           IF q >= 65536 THEN [m |-> q \div 2, r |-> 2 * acc.r + 1] ELSE [m |-> q, r |-> 2 * acc.r],
           [m |-> m0, r |-> 0], Bits).r
FloorLog2(a) == CHOOSE e \in 0..30 : 2 ^ e <= a /\ (e = 30 \/ a < 2 ^ (e + 1))
Log2I(a) == LET e == FloorLog2(a)
                m == IF e <= 15 THEN a * 2 ^ (15 - e) ELSE a \div 2 ^ (e - 15)
            IN 8192 * e + Frac2(m)
Log2(a, b) == Log2I(a) - Log2I(b)
(* e^(-t), t >= 0 in units of 1/10000, result likewise                               *)
ENeg == <<10000, 3679, 1353, 498, 183, 67, 25, 9, 3, 1>>
ExpNeg(t) == LET n == t \div 10000  f == t % 10000
                 p == FoldLeft(LAMBDA acc, k : 10000 - (f * acc) \div (10000 * k), 10000, <<7, 6, 5, 4, 3, 2, 1>>)
             IN IF n >= 10 THEN 0 ELSE RoundDiv(ENeg[n + 1] * p, 10000)
(* natural logarithm of a/b in units of 1/10000                                    *)
Ln(a, b) == LET g == Log2(a, b) IN ((g \div 8192) * 693147) \div 100 + RoundDiv((g % 8192) * 6931, 8192)
=============================================================================
