----------------------------- MODULE WaveletTrace -----------------------------
(* The catalogue of wavelets and what makes a pair of decomposition filters      *)
(* valid for each: reconstruction without aliasing or distortion, the family's   *)
(* length, its vanishing moments and its phase.                                   *)
(* Filter coefficients are integers in 1/10^8.                                     *)
EXTENDS TraceBase, Trig
tv == <<l>>
TraceInit == l = 1
\* family, and its parameters (order; for biorthogonal ones reconstruction and decomposition order)
Daub(n) == [f |-> "D", p |-> n, d |-> n, len |-> 2 * n, name |-> "Daubechies " \o ToString(n)]
Sym(n) == [f |-> "S", p |-> n, d |-> n, len |-> 2 * n, name |-> "Symlet " \o ToString(n)]
Coif(n) == [f |-> "C", p |-> 2 * n, d |-> 2 * n, len |-> 6 * n, name |-> "Coiflet " \o ToString(n)]
Bior(r, d, n) == [f |-> "B", p |-> r, d |-> d, len |-> n, name |-> "Biorthogonal " \o ToString(r) \o "." \o ToString(d)]
Catalogue ==
  << [f |-> "H", p |-> 1, d |-> 1, len |-> 2, name |-> "Haar"] >>
  \o [i \in 1..9 |-> Daub(i + 1)] \o << Daub(20), Daub(40) >>
  \o [i \in 1..9 |-> Sym(i + 1)] \o << Sym(20), Sym(30) >>
  \o [i \in 1..5 |-> Coif(i)]
  \o << Bior(1, 3, 6), Bior(1, 5, 10), Bior(2, 2, 6), Bior(2, 4, 10), Bior(2, 6, 14), Bior(2, 8, 18), Bior(3, 1, 4), Bior(3, 3, 8),
        Bior(3, 5, 12), Bior(3, 7, 16), Bior(3, 9, 20), Bior(4, 4, 10), Bior(5, 5, 12), Bior(6, 8, 18) >>
  \o << [f |-> "M", p |-> 1, d |-> 1, len |-> 102, name |-> "Meyer"] >>
NTypes == Len(Catalogue)
Orthogonal(c) == c.f \in {"H", "D", "S", "C", "M"}
(* what the printed tables are good for: the truncated Meyer filter and the longest Daubechies one are less precise *)
Tol(c) == IF c.f = "M" THEN 1000 ELSE IF c.f = "D" /\ c.p = 40 THEN 3000 ELSE IF c.len > 50 \/ (c.f = "C" /\ c.p = 10) THEN 40 ELSE 10
Hi(x) == x \div 10000
Lo(x) == x % 10000
(* sum of products of two equally long sequences given by index functions, in 1/10^8 *)
Dot(a, b, lo, hi, k) ==      \* sum over i in lo..hi of a[i] * b[k - i]
  LET hh == FoldLeft(LAMBDA t, i : t + Hi(a[i]) * Hi(b[k - i]), 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])
      hl == FoldLeft(LAMBDA t, i : t + Hi(a[i]) * Lo(b[k - i]), 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])
      lh == FoldLeft(LAMBDA t, i : t + Lo(a[i]) * Hi(b[k - i]), 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])
      ll == FoldLeft(LAMBDA t, i : t + (Lo(a[i]) * Lo(b[k - i])) \div 10000, 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])
  IN hh + RoundDiv(RoundDiv(hl, 10) + RoundDiv(lh, 10), 1000) + RoundDiv(ll, 10000)
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
(* the synthesis low-pass filter belonging to the analysis high-pass one             *)
Synth(h) == [k \in 1..Len(h) |-> Sgn(k) * h[k]]
Reconstructs(a, h, tol) ==
  LET n == Len(a)  g == TLCEval(Synth(h))
  IN \A m \in {j \in 2..(2 * n) : (j - n - 1) % 2 = 0} :
       Near(Dot(a, g, IF m - n < 1 THEN 1 ELSE m - n, IF m - 1 > n THEN n ELSE m - 1, m), IF m = n + 1 THEN 100000000 ELSE 0, tol)
Moment0(x) == SumSeq(x)
Moment1(x) == SumSeq([k \in 1..Len(x) |-> (2 * k - Len(x) - 1) * RoundDiv(x[k], 10)])                   \* in 1/10^7
Moment2(x) == SumSeq([k \in 1..Len(x) |-> (2 * k - Len(x) - 1) * (2 * k - Len(x) - 1) * RoundDiv(x[k], 1000)])      \* in 1/10^5
Moment3(x) == SumSeq([k \in 1..Len(x) |-> (2 * k - Len(x) - 1) ^ 3 * RoundDiv(x[k], 1000)])
PowSum(n, j) == SumSeq([k \in 1..n |-> Abs(2 * k - n - 1) ^ j])
(* p vanishing moments of a filter, as far as fixed point arithmetic follows         *)
Vanishing(x, p, tol) ==
  LET n == Len(x) IN
  /\ Abs(Moment0(x)) <= tol
  /\ p >= 2 => Abs(Moment1(x)) <= PowSum(n, 1) + tol
  /\ p >= 3 /\ n <= 40 => Abs(Moment2(x)) <= PowSum(n, 2) + tol
  /\ p >= 4 /\ n <= 12 => Abs(Moment3(x)) <= PowSum(n, 3) + tol
Altern(x) == [k \in 1..Len(x) |-> Sgn(k) * x[k]]
(* where the energy lies, in 1/1000 of the length                                     *)
Energies(a) == TLCEval([k \in 1..Len(a) |-> LET c == RoundDiv(a[k], 10000) IN RoundDiv(c * c, 100)])
Centre(a) == LET w == Energies(a) IN RoundDiv(SumSeq([k \in 1..Len(a) |-> (k - 1) * w[k]]), (SumSeq(w) * (Len(a) - 1)) \div 1000)
Support(a) == {k \in 1..Len(a) : a[k] # 0}
Mn(S) == CHOOSE m \in S : \A x \in S : m <= x
Mx(S) == CHOOSE m \in S : \A x \in S : m >= x
Valid(c, a, h) ==
  /\ Len(a) = c.len /\ Len(h) = c.len
  /\ Near(SumSeq(a), 141421356, 60)
  /\ Reconstructs(a, h, Tol(c))
  /\ Orthogonal(c) => (\A k \in 1..c.len : h[k] = Sgn(k) * a[c.len + 1 - k])
  /\ Vanishing(h, c.p, IF c.f = "M" THEN 400 ELSE 60)
  /\ c.f # "M" => Vanishing(Altern(a), c.d, 60)
  \* extremal phase, least asymmetry, moments of the scaling function too, exact symmetry
  /\ (c.f = "D") => Centre(a) > 700
  /\ (c.f = "S" /\ c.p >= 4) => Centre(a) \in 400..610
  /\ (c.f = "C") => Near(SumSeq([k \in 1..c.len |-> (k - 2 * c.p) * RoundDiv(a[k], 10)]), 0, PowSum(c.len, 1) + 60)
  /\ (c.f \in {"B", "M", "H"}) => LET s == Support(a)  m == Mn(s) + Mx(s) IN \A k \in s : a[m - k] = a[k]
Step(e) ==
  CASE e.e = "Scenario" -> TRUE
    [] e.e = "Table" -> Holds(e.type \in 0..(NTypes - 1)) /\ Holds(e.name = Catalogue[e.type + 1].name /\ Valid(Catalogue[e.type + 1], e.l, e.h))
    [] e.e = "Unknown" -> Holds(e.type >= NTypes /\ \A i \in 1..NTypes : Catalogue[i].name # e.name)
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
ASSUME NTypes = 43
=============================================================================
