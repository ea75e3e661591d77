------------------------------- MODULE PhaseVocTrace -------------------------------
(* Recorded use of real PhaseVocoder objects.  Angles are hundredths of a unit of  *)
(* 1/(16 n) turn, so that bin phases in sixteenths of a turn and hop advances are  *)
(* whole.  A deviation of exactly half a turn may be resolved either way.          *)
EXTENDS TraceBase, DspOps
VARIABLES big, \* a long run or large frame: [n, hop, at (bins), turns, parts]
          obj  \* [object |-> [n, hop, u (unwrapped so far)]]
tv == <<big, obj, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ obj = None /\ big = [n |-> 1]
Turn(o) == 1600 * o.n
Omega(o, b) == 1600 * o.hop * b
Start(n, hop) == [i \in 1..(n \div 2 + 1) |-> -(1600 * hop * (i - 1))]
OnTurn(x, t, tol) == LET r == x % t IN r <= tol \/ r >= t - tol
(* one step behind zero: -hop * bin / n turns, as whole turns and parts            *)
BigStart(n, hop, at) == [n |-> n, hop |-> hop, at |-> at,
                         turns |-> [i \in 1..Len(at) |-> -CeilDiv(hop * at[i], n)],
                         parts |-> [i \in 1..Len(at) |-> 1600 * (CeilDiv(hop * at[i], n) * n - hop * at[i])]]
BigFrameOK(e) ==
  LET t == 1600 * big.n
      deviation(i) == LET adv == big.hop * big.at[i]
                          whole == e.turns[i] - big.turns[i] - adv \div big.n
                      IN IF Abs(whole) > 2 THEN t * 2 ELSE whole * t + e.parts[i] - big.parts[i] - 1600 * (adv % big.n)
  IN \A i \in 1..Len(big.at) :
       /\ Near(e.mag[i], 1000 * e.m[i], 1)
       /\ Near(e.theta[i], 100 * big.n * e.p[i], 2) \/ (e.p[i] = 8 /\ Near(e.theta[i], -800 * big.n, 2))
       /\ OnTurn(e.parts[i] - 100 * big.n * e.p[i], t, 4)
       /\ 2 * Abs(deviation(i)) <= t + 8
BigStep(e) ==
  CASE e.e = "Big" -> big' = BigStart(e.n, e.hop, e.at)
    [] e.e = "BigReset" -> big' = BigStart(big.n, big.hop, big.at)
    [] e.e = "BigFrame" -> BigFrameOK(e) /\ big' = [big EXCEPT !.turns = e.turns, !.parts = e.parts]
SmallStep(e) ==
  CASE e.e = "Scenario" -> obj' = None
    [] e.e = "New" -> obj' = Put(obj, e.k, [n |-> e.n, hop |-> e.hop, u |-> Start(e.n, e.hop)])
    [] e.e = "Reset" -> obj' = [obj EXCEPT ![e.k].u = Start(obj[e.k].n, obj[e.k].hop)]
    [] e.e = "Frame" ->
         LET o == obj[e.k]
         IN /\ Len(e.m) = o.n \div 2 + 1
            /\ \A i \in 1..Len(e.m) :
                 /\ Near(e.mag[i], 1000 * e.m[i], 1)
                 /\ Near(e.theta[i], 100 * o.n * e.p[i], 2) \/ (e.p[i] = 8 /\ Near(e.theta[i], -800 * o.n, 2))
                 /\ OnTurn(e.u[i] - 100 * o.n * e.p[i], Turn(o), 4)
                 /\ 2 * Abs(e.u[i] - o.u[i] - Omega(o, i - 1)) <= Turn(o) + 8
            /\ obj' = [obj EXCEPT ![e.k].u = e.u]
    [] e.e = "Tone" ->  \* cosine on bin e.b with phase e.p sixteenths at the frame's centre
         LET o == obj[e.k]
         IN /\ \A i \in 1..Len(e.mag) : Near(e.mag[i], IF i = e.b + 1 THEN 500 * o.n ELSE 0, 2)
            /\ Near(e.theta[e.b + 1], 100 * o.n * e.p, 2)
            /\ OnTurn(e.u[e.b + 1] - e.theta[e.b + 1], Turn(o), 4)
            /\ obj' = [obj EXCEPT ![e.k].u = e.u]
    [] e.e = "Agree" -> NearSeq(e.td, e.fd, 3) /\ UNCHANGED obj
    [] OTHER -> FALSE
Step(e) == IF e.e \in {"Big", "BigReset", "BigFrame"} THEN BigStep(e) /\ UNCHANGED obj ELSE SmallStep(e) /\ UNCHANGED big
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
