--------------------------------- MODULE OnsetOps ---------------------------------
(* Detection functions over spectra whose bins are [m |-> magnitude, q |-> phase  *)
(* in quarter turns, -1..2].  Results in thousandths of the natural unit.         *)
EXTENDS DspOps
(* floor(1000 * sqrt(x)) for 0 <= x <= 2147                                       *)
ISqrt(n) ==  \* floor of the square root of n >= 0
  LET go[k \in 0..16] == IF k = 16 THEN 0
                         ELSE LET r == go[k + 1]  c == r + 2 ^ k
                              IN IF c <= 46340 /\ c * c <= n THEN c ELSE r
  IN go[0]
Milli(x) == ISqrt(1000000 * x)
PrincQ(x) == LET y == x % 4 IN IF y > 2 THEN y - 4 ELSE y     \* (-2, 2] quarter turns
AbsPrincQ(x) == Abs(PrincQ(x))
Silent(bins) == [i \in 1..bins |-> [m |-> 0, q |-> 0]]
HFCv(c) == SumSeq([i \in 1..Len(c) |-> 1000 * c[i].m * i])
SpecDiffv(c, p) == SumSeq([i \in 1..Len(c) |-> Milli(Abs(c[i].m * c[i].m - p[i].m * p[i].m))])
PhaseDevv(c, p, pp) == SumSeq([i \in 1..Len(c) |-> 1000 * AbsPrincQ(c[i].q - 2 * p[i].q + pp[i].q)])
ComplexSDv(c, p, pp) ==
  SumSeq([i \in 1..Len(c) |->
    LET d == AbsPrincQ(c[i].q - 2 * p[i].q + pp[i].q)
    IN IF d = 0 THEN 1000 * Abs(p[i].m - c[i].m)
       ELSE IF d = 2 THEN 1000 * (p[i].m + c[i].m)
       ELSE Milli(p[i].m * p[i].m + c[i].m * c[i].m)])
(* rise: the power ratio of the configured rise, in thousandths                   *)
Broadbandv(c, p, rise) == 1000 * Cardinality({i \in 1..Len(c) : p[i].m > 0 /\ 1000 * c[i].m * c[i].m > rise * p[i].m * p[i].m})
(* value for the last of a sequence of frames                                     *)
DFValue(type, rise, c, p, pp) ==
  CASE type = 1 -> HFCv(c)
    [] type = 2 -> SpecDiffv(c, p)
    [] type = 3 -> PhaseDevv(c, p, pp)
    [] type = 4 -> ComplexSDv(c, p, pp)
    [] type = 5 -> Broadbandv(c, p, rise)
(* magnitude scaled: phase deviation and broadband are not proportional to it     *)
Proportional(type) == type \in {1, 2, 4}
=============================================================================
