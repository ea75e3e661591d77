----------------------------- MODULE DecimatorTrace -----------------------------
(* Recorded use of real Decimator and DecimatorB objects, in millionths.         *)
EXTENDS TraceBase, DspOps
VARIABLES par, obj, ref
tv == <<par, obj, ref, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
PowersOfTwo == {2, 4, 8, 16, 32, 64, 128, 256}
TraceInit == l = 1 /\ par = None /\ obj = None /\ ref = <<>>
Step(e) ==
  CASE e.e = "Scenario" -> par' = [factor |-> e.factor, kind |-> e.kind] /\ obj' = None /\ ref' = <<>>
    [] e.e = "Highest" -> e.v = 8 /\ UNCHANGED <<par, obj, ref>>
    [] e.e = "Ref" -> ref' = e.out /\ UNCHANGED <<par, obj>>      \* one block holding the whole stream
    [] e.e = "New" -> e.factor = par.factor /\ obj' = Put(obj, e.k, 0) /\ UNCHANGED <<par, ref>>
    [] e.e = "Block" ->                                           \* e.n samples of the stream, from where this object stands
         /\ Len(e.out) = e.n \div par.factor
         /\ NearSeq(e.out, SubSeq(ref, obj[e.k] + 1, obj[e.k] + Len(e.out)), e.tol)
         /\ obj' = Put(obj, e.k, obj[e.k] + Len(e.out)) /\ UNCHANGED <<par, ref>>
    [] e.e = "Reset" -> obj' = Put(obj, e.k, 0) /\ UNCHANGED <<par, ref>>
    [] e.e = "Steady" -> (\A i \in 1..Len(e.out) : Near(e.out[i], e.value, 5)) /\ UNCHANGED <<par, obj, ref>>
    [] e.e = "Tone" ->  \* amplitude of a unit tone at e.f hundredths of the new Nyquist frequency
         /\ e.f <= 80 => Near(e.gain, 1000000, 15000)
         /\ (e.f >= 130 /\ par.factor > 1) => e.gain <= 150000
         /\ UNCHANGED <<par, obj, ref>>
    [] e.e = "Copy" -> par.factor = 1 /\ e.out = e.in /\ UNCHANGED <<par, obj, ref>>
    [] e.e = "Refused" -> (IF e.factor \in PowersOfTwo THEN e.n % e.factor # 0 ELSE TRUE) /\ e.written = 0 /\ UNCHANGED <<par, obj, ref>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
