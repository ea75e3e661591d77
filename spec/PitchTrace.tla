------------------------------- MODULE PitchTrace -------------------------------
(* Equal temperament: a pitch of p semitones and c cents sounds at                  *)
(* concert * 2^((100 p + c - 6900) / 1200).                                         *)
EXTENDS TraceBase, Trig
VARIABLE heard     \* frequencies so far, relative to the concert pitch: {<<thousandths of a cent, exponent, mantissa>>}
tv == <<heard, l>>
TraceInit == l = 1 /\ heard = {}

Semitone == <<100000000, 105946309, 112246205, 118920712, 125992105, 133483985, 141421356, 149830708, 158740105, 168179283, 178179744, 188774863>>      \* 2^(k/12), in 1/10^8
ASSUME \A k \in 1..11 : LET r == Semitone[k + 1] \div 10000 IN Near(RoundDiv(r * (Semitone[13 - k] \div 10000), 20000), 10000, 2)
(* 2^(c/1200000) - 1 for c thousandths of a cent below 100000, in 1/10^8              *)
Fine(c) == LET y == (c * 5776) \div 100 + (c * 2265) \div 1000000
               h == RoundDiv(y, 1000)  q == RoundDiv(y, 10000)
           x == (h * h) \div 10000
           IN y + (h * h) \div 200 + (q * q * q) \div 60000 + (x * x) \div 240000
Times(r, d) == LET rh == r \div 10000 rl == r % 10000 dh == d \div 1000 dl == d % 1000
               IN r + (rh * dh) \div 10 + (rh * dl) \div 10000 + (rl * dh) \div 100000
(* relative frequency of t thousandths of a cent: mantissa in [10^8, 2*10^8) and exponent of two *)
Rel(t) == LET u == t - 6900000  o == IF u >= 0 THEN u \div 1200000 ELSE -CeilDiv(-u, 1200000)  w == u - o * 1200000
          IN [e |-> o, m |-> Times(Semitone[w \div 100000 + 1], Fine(w % 100000))]
(* equal up to r in 10^8, also across the wrap from one octave to the next            *)
NearRel(a, b, r) == \/ a.e = b.e /\ Near(a.m, b.m, 2 * r)
                    \/ a.e = b.e + 1 /\ Near(2 * (a.m - 100000000), b.m - 200000000, 4 * r)
                    \/ b.e = a.e + 1 /\ Near(2 * (b.m - 100000000), a.m - 200000000, 4 * r)
Below(a, b) == a.e < b.e \/ (a.e = b.e /\ a.m < b.m)
ASSUME NearRel(Rel(6900000), [e |-> 0, m |-> 100000000], 1)
ASSUME \A p \in 0..126 : Below(Rel(100000 * p), Rel(100000 * (p + 1)))
ASSUME \A p \in 0..126 : NearRel(Rel(100000 * p + 99999), Rel(100000 * (p + 1)), 100)
Tol == 300
(* strictly higher pitches sound strictly higher wherever single precision can tell   *)
Ordered(t, f) == \A h \in heard : /\ t - h.t > 20 => Below(h.f, f)
                                  /\ h.t - t > 20 => Below(f, h.f)
Img(e) == [e |-> e.ex, m |-> e.man]
Step(e) ==
  CASE e.e = "Scenario" -> heard' = {}
    [] e.e = "Frequency" -> LET t == 100000 * e.p + e.c  f == Img(e) IN
                            /\ Holds(NearRel(f, Rel(t), Tol) /\ Ordered(t, f))
                            /\ heard' = heard \cup {[t |-> t, f |-> f]}
    [] e.e = "Octave" -> Holds(e.exb = e.ex + 1 /\ Near(e.manb, e.man, 100)) /\ UNCHANGED heard
    (* the inverse: of a frequency made from p and c, the cents returned lie in [-50, 50)  *)
    [] e.e = "Pitch" -> /\ Holds(Near(100000 * e.rp + e.rc, 100000 * e.p + e.c, 8) /\ e.rc >= -50001 /\ e.half)
                        /\ Holds(e.rp0 = e.rp) /\ UNCHANGED heard
    (* any frequency at all: what comes back names it                                     *)
    [] e.e = "Named" -> Holds(NearRel(Img(e), Rel(100000 * e.rp + e.rc), Tol + 300) /\ e.rc >= -50001 /\ e.half) /\ UNCHANGED heard
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
