------------------------------- MODULE DFProcTrace -------------------------------
(* Detection function conditioning (DFProcess) and peak picking (PeakPicking) on  *)
(* integer detection functions and integer filter coefficients.                   *)
(* Recorded values are multiplied by the alpha norm of the input (which is the    *)
(* only non-integer part) and given in half-thousandths: 2000 * norm * value.     *)
EXTENDS TraceBase, DspOps
VARIABLE obj     \* [object |-> settings]
tv == <<obj, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ obj = None

(* normalised: least value taken off; smoothed forwards and backwards; detrended  *)
(* by the median of the window that exists; threshold taken off                   *)
Smoothed(o, in) == LET m == MinSeq(in) IN FiltFiltOut(o.a, o.b, [i \in 1..Len(in) |-> in[i] - m])
Conditioned(o, in, thr) ==
  LET s == Smoothed(o, in)
  IN [p \in 1..Len(in) |->
        LET v == 2000 * s[p] - 1000 * Median2(ClippedWindow(s, p, o.pre, o.post)) - thr
        IN IF o.positive THEN MaxI(0, v) ELSE v]
Tol == 20
NormOK(e, o) == o.alpha = 1 => Near(e.norm * Len(e.in), 1000 * SumAbs(e.in), Len(e.in))

(* peak rule: r = ranks of the conditioned values, zero = rank of 0               *)
IsPeak(e, i) == e.ranks[i] > e.ranks[i - 1] /\ e.ranks[i] > e.ranks[i + 1] /\ e.ranks[i] > e.zero
Curv(v, i) == 2 * v[i - 2] - v[i - 1] - 2 * v[i] - v[i + 1] + 2 * v[i + 2]             \* 14 * second coefficient
Height(v, i) == 12 * v[i - 1] + 17 * v[i] + 12 * v[i + 1] - 3 * v[i - 2] - 3 * v[i + 2]  \* 35 * constant
(* outputs of unstable smoothing filters are large: the comparison of the height is then made in thousands *)
Large(v, i) == \E k \in (i - 2)..(i + 2) : v[k] > 15000000 \/ v[k] < -15000000
Coarse(v, i) == [k \in (i - 2)..(i + 2) |-> v[k] \div 1000]
HeightOver(e, i, slack) == IF Large(e.out, i) \/ e.qc > 50000000 THEN Height(Coarse(e.out, i), i) > 35 * (e.qc \div 1000) + slack \div 5
                           ELSE Height(e.out, i) > 35 * e.qc + slack
Must(e, i) == Curv(e.out, i) < -14 * e.qa - 200 \/ HeightOver(e, i, 500)
May(e, i) == Curv(e.out, i) < -14 * e.qa + 200 \/ HeightOver(e, i, -500)
Peaks(e) == {i \in 3..(Len(e.in) - 2) : IsPeak(e, i)}
PickOK(e) ==
  LET new == SubSeq(e.after, Len(e.before) + 1, Len(e.after))
      got == {new[k] + 1 : k \in 1..Len(new)}
  IN /\ Len(e.after) >= Len(e.before) /\ SubSeq(e.after, 1, Len(e.before)) = e.before
     /\ \A k \in 1..(Len(new) - 1) : new[k] < new[k + 1]
     /\ got \subseteq Peaks(e)
     /\ \A i \in Peaks(e) : (Must(e, i) => i \in got) /\ (i \in got => May(e, i))

Step(e) ==
  CASE e.e = "Scenario" -> obj' = None
    [] e.e = "New" -> obj' = Put(obj, e.k, [a |-> e.a, b |-> e.b, pre |-> e.pre, post |-> e.post, positive |-> e.positive, alpha |-> e.alpha])
    [] e.e = "Process" -> /\ NormOK(e, obj[e.k])
                          /\ NearSeq(e.out, Conditioned(obj[e.k], e.in, e.thr), Tol)
                          /\ UNCHANGED obj
    [] e.e = "Pick" -> /\ NormOK(e, obj[e.k])
                       /\ NearSeq(e.out, Conditioned(obj[e.k], e.in, e.thr), Tol)
                       /\ PickOK(e) = TRUE      \* as a value: TLC would otherwise enumerate its disjunctions
                       /\ UNCHANGED obj
    [] e.e = "PickShort" -> Len(e.in) < 4 /\ e.out = e.in /\ e.after = e.before /\ UNCHANGED obj
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
