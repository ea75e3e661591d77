-------------------------------- MODULE DspOps --------------------------------
(* Exact integer arithmetic shared by the signal-processing specifications.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
CeilDiv(a, b) == (a + b - 1) \div b          \* for a >= 0, b > 0

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
SumAbs(s) == FoldLeft(LAMBDA acc, x : acc + Abs(x), 0, s)
MinSeq(s) == FoldLeft(MinI, s[1], s)
MaxSeq(s) == FoldLeft(MaxI, s[1], s)
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
Zeros(n) == [i \in 1..n |-> 0]
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

(* Order statistics.  Rank counts from 0.                                       *)
SortInts(s) == SortSeq(s, LAMBDA x, y : x < y)
OrderStat(s, rank) == SortInts(s)[rank + 1]
(* Twice the median, so that it stays an integer for even lengths.              *)
Median2(s) == LET t == SortInts(s)  n == Len(s)
              IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[n \div 2 + 1]

(* ---- the difference equation, one sample at a time --------------------------
   a filter state is [x |-> most recent inputs first, y |-> most recent outputs
   first]; coefficients a (a[1] is not used; may be empty) and b                *)
Order(b) == Len(b) - 1
FilterZero(b) == [x |-> Zeros(Order(b)), y |-> Zeros(Order(b))]
Shift(v, h) == IF Len(h) = 0 THEN h ELSE <<v>> \o SubSeq(h, 1, Len(h) - 1)
FilterOut(a, b, st, v) ==
  LET n == Order(b)
      ff[i \in 0..n] == IF i = 0 THEN b[1] * v ELSE ff[i - 1] + b[i + 1] * st.x[i]
      fb[i \in 0..n] == IF i = 0 \/ Len(a) = 0 THEN 0 ELSE fb[i - 1] + a[i + 1] * st.y[i]
  IN ff[n] - fb[n]
FilterStep(a, b, st, v) ==
  LET y == FilterOut(a, b, st, v) IN [x |-> Shift(v, st.x), y |-> Shift(y, st.y)]
(* Running a whole block: the state afterwards and the outputs.                 *)
FilterRun(a, b, st, xs) ==
  FoldLeft(LAMBDA acc, v : LET y == FilterOut(a, b, acc.st, v)
                           IN [st |-> [x |-> Shift(v, acc.st.x), y |-> Shift(y, acc.st.y)],
                               out |-> Append(acc.out, y)],
           [st |-> st, out |-> <<>>], xs)

(* ---- zero-phase filtering -------------------------------------------------- *)
Extended(xs, f) ==
  LET n == Len(xs)
  IN [i \in 1..f |-> LET k == f - i + 1 IN IF k < n THEN 2 * xs[1] - xs[k + 1] ELSE 0]
     \o xs
     \o [i \in 1..f |-> IF i < n THEN 2 * xs[n] - xs[n - i] ELSE 0]
FiltFiltOut(a, b, xs) ==
  IF Len(xs) = 0 THEN <<>>
  ELSE LET f == 3 * Order(b)
           one == FilterRun(a, b, FilterZero(b), Extended(xs, f)).out
           two == FilterRun(a, b, FilterZero(b), Reverse(one)).out
       IN SubSeq(Reverse(two), f + 1, f + Len(xs))

(* ---- moving median over the window that exists ------------------------------ *)
ClippedWindow(s, p, pre, post) == SubSeq(s, MaxI(1, p - pre), MinI(Len(s), p + post))
=============================================================================
