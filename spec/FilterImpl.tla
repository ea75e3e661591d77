------------------------------- MODULE FilterImpl -------------------------------
(* The history buffers of Filter: samples are written at a moving offset into   *)
(* spare space (Spare places) and moved back when it runs out.  Exhaustively    *)
(* checked to compute the difference equation for every small filter and every  *)
(* small input, wherever a run is interrupted or reset.                         *)
EXTENDS DspOps

CONSTANTS Spare, As, Bs, Values, MaxSteps

VARIABLES a, b, bufa, bufb, offa, offb, out, spec, n
vars == <<a, b, bufa, bufb, offa, offb, out, spec, n>>

Sz == Len(b)
Fir == Len(a) = 0
Fresh(aa, bb) ==
  /\ bufa = Zeros(IF Len(aa) = 0 THEN 0 ELSE Len(bb) + Spare)
  /\ bufb = Zeros(Len(bb) + Spare)
  /\ offa = Spare /\ offb = Spare

Init ==
  /\ b \in Bs /\ a \in {x \in As : Len(x) = 0 \/ Len(x) = Len(b)}
  /\ Fresh(a, b)
  /\ out = 0 /\ spec = FilterZero(b) /\ n = 0

(* buffers are 1-based here: buf[i + 1] is the code's buf[i]                     *)
Moved(buf, count) == [i \in 1..Len(buf) |-> IF i - 1 > Spare /\ i - 1 <= Spare + count THEN buf[i - 1 - Spare] ELSE buf[i]]
Push(v) ==
  LET ob == IF offb > 0 THEN offb - 1 ELSE Spare
      bb == IF offb > 0 THEN bufb ELSE Moved(bufb, Sz - 1)
      nb == [bb EXCEPT ![ob + 1] = v]
      bs[i \in 0..Sz] == IF i = 0 THEN 0 ELSE bs[i - 1] + b[i] * nb[i - 1 + ob + 1]
      as[i \in 0..(Sz - 1)] == IF i = 0 \/ Fir THEN 0 ELSE as[i - 1] + a[i + 1] * bufa[i - 1 + offa + 1]
      y == bs[Sz] - as[Sz - 1]
      oa == IF offa > 0 THEN offa - 1 ELSE Spare
      ba == IF offa > 0 THEN bufa ELSE Moved(bufa, Sz - 2)
  IN /\ bufb' = nb /\ offb' = ob
     /\ IF Fir THEN UNCHANGED <<bufa, offa>> ELSE bufa' = [ba EXCEPT ![oa + 1] = y] /\ offa' = oa
     /\ out' = y - FilterOut(a, b, spec, v)      \* must stay 0
     /\ spec' = FilterStep(a, b, spec, v)
     /\ n' = n + 1
     /\ UNCHANGED <<a, b>>
Reset ==
  /\ bufa' = Zeros(Len(bufa)) /\ bufb' = Zeros(Len(bufb)) /\ offa' = Spare /\ offb' = Spare
  /\ spec' = FilterZero(b) /\ out' = 0 /\ n' = n + 1 /\ UNCHANGED <<a, b>>
Next == n < MaxSteps /\ (Reset \/ \E v \in Values : Push(v))
Spec == Init /\ [][Next]_vars

Computes == out = 0
History == /\ \A i \in 1..(Sz - 1) : bufb[offb + i] = spec.x[i]
           /\ Fir \/ \A i \in 1..(Sz - 1) : bufa[offa + i] = spec.y[i]

MCValues == {-1, 0, 2}
MCAs == {<<>>, <<1>>, <<1, 1>>, <<1, -1>>, <<1, 0, -1>>, <<1, -1, 1>>}
MCBs == {<<2>>, <<1, 1>>, <<0, -1>>, <<1, 2, -1>>, <<0, 0, 1>>}
=============================================================================
