------------------------------- MODULE PcaTrace -------------------------------
(* Principal components: projecting the centred data on orthogonal directions of  *)
(* unit length (which leaves all inner products of rows as they were), such that   *)
(* the components are uncorrelated and come in order of decreasing variance;       *)
(* fewer components are the first of all of them.                                  *)
(* Data are integers times a unit, plus offsets that centring removes; results in  *)
(* 1/1000 of the unit.                                                             *)
EXTENDS TraceBase, Trig
tv == <<l>>
TraceInit == l = 1
At(v, m, i, j) == v[(i - 1) * m + j]
ColSum(v, n, m, j) == SumSeq([i \in 1..n |-> At(v, m, i, j)])
(* n times the centred datum                                                          *)
Cent(e) == LET s == TLCEval([j \in 1..e.m |-> ColSum(e.x, e.n, e.m, j)]) IN TLCEval([k \in 1..(e.n * e.m) |-> e.n * e.x[k] - s[((k - 1) % e.m) + 1]])
(* inner products in 1/100                                                            *)
Centi(v) == TLCEval([k \in 1..Len(v) |-> RoundDiv(v[k], 10)])       \* in 1/100
Prod(v, m, i, j, c) == SumSeq([k \in 1..c |-> At(v, m, i, k) * At(v, m, j, k)])                      \* of rows i and j
Cross(v, m, n, a, b) == SumSeq([i \in 1..n |-> At(v, m, i, a) * At(v, m, i, b)])                     \* of columns a and b
Energy(v) == SumSeq([k \in 1..Len(v) |-> Abs(v[k])])
Step(e) ==
  CASE e.e = "Scenario" -> TRUE
    [] e.e = "Project" ->
         LET f == Centi(e.full)  x == Cent(e)  t == Energy(f) + 200 IN
         /\ Holds(Len(e.full) = e.n * e.m /\ Len(e.part) = e.n * e.c)
         /\ Holds(\A j \in 1..e.m : Abs(ColSum(e.full, e.n, e.m, j)) <= e.n + 1)
         \* rows keep their inner products: in 1/10000
         /\ Holds(\A i \in 1..e.n : \A j \in i..(IF e.n > 30 THEN MinI(e.n, i + 3) ELSE e.n) :
              Near(Prod(f, e.m, i, j, e.m), RoundDiv(RoundDiv(Prod(x, e.m, i, j, e.m) * 100, e.n) * 100, e.n), t))
         /\ Holds(\A a \in 1..e.m : \A b \in (a + 1)..e.m : Abs(Cross(f, e.m, e.n, a, b)) <= t)
         /\ Holds(\A a \in 1..(e.m - 1) : Cross(f, e.m, e.n, a, a) >= Cross(f, e.m, e.n, a + 1, a + 1) - t)
         /\ Holds(LET p == Centi(e.part) IN \A i \in 1..e.n : \A k \in 1..e.c : Near(At(p, e.c, i, k), At(f, e.m, i, k), 1))
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
