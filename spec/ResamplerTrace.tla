----------------------------- MODULE ResamplerTrace -----------------------------
(* Recorded use of real Resampler objects.  Values are in millionths.            *)
EXTENDS TraceBase, DspOps
VARIABLES par,    \* rates, spacings and latency of the current scenario
          obj,    \* [object |-> [in, out]] samples consumed and produced so far
          ref,    \* the output of one long call over the scenario's signal
          kern    \* impulse response seen so far, by distance from its centre
tv == <<par, obj, ref, kern, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ par = None /\ obj = None /\ ref = <<>> /\ kern = <<>>

Due(n) == CeilDiv(n * par.sp, par.op)
Unknown == 1000000000
Milli(x) == 1000 * ((x * par.op) \div par.sp) + (1000 * ((x * par.op) % par.sp)) \div par.sp
Dist(i, j) == Abs((j - par.lat) * par.op - i * par.sp)     \* output j counts from 0
Step(e) ==
  CASE e.e = "Scenario" ->
         /\ par' = [s |-> e.s, t |-> e.t, sp |-> e.t \div e.g, op |-> e.s \div e.g, lat |-> e.lat]
         /\ e.lat >= 1
         /\ obj' = None /\ ref' = <<>> /\ kern' = <<>>
    [] e.e = "Ref" -> ref' = e.out /\ UNCHANGED <<par, obj, kern>>
    [] e.e = "New" -> e.lat = par.lat /\ obj' = Put(obj, e.k, [in |-> 0, out |-> 0]) /\ UNCHANGED <<par, ref, kern>>
    [] e.e = "Process" ->
         LET o == obj[e.k]  n == o.in + e.n  m == o.out + e.got
         IN /\ e.got <= Due(e.n)
            /\ m \in Due(n)..(Due(n) + 1)
            /\ NearSeq(e.out, SubSeq(ref, o.out + 1, m), 2)
            /\ obj' = Put(obj, e.k, [in |-> n, out |-> m])
            /\ UNCHANGED <<par, ref, kern>>
    [] e.e = "Impulse" ->
         LET \* the output (from 1) at distance d from the impulse's own time, if there is one
             at(d) == IF (e.i * par.sp + d) % par.op = 0 /\ par.lat + (e.i * par.sp + d) \div par.op + 1 \in 1..Len(e.out)
                      THEN par.lat + (e.i * par.sp + d) \div par.op + 1
                      ELSE IF (e.i * par.sp - d) % par.op = 0 /\ par.lat + (e.i * par.sp - d) \div par.op + 1 \in 1..Len(e.out)
                      THEN par.lat + (e.i * par.sp - d) \div par.op + 1 ELSE 0
             old(d) == IF d + 1 <= Len(kern) THEN kern[d + 1] ELSE Unknown
             far == MaxI(Len(kern) - 1, MaxI(Dist(e.i, 0), Dist(e.i, Len(e.out) - 1)))
             new == [x \in 1..(far + 1) |-> IF old(x - 1) # Unknown THEN old(x - 1)
                                            ELSE IF at(x - 1) # 0 THEN e.out[at(x - 1)] ELSE Unknown]
         IN /\ \A j \in 1..Len(e.out) : Near(e.out[j], new[Dist(e.i, j - 1) + 1], 3)
            /\ \A j \in 1..Len(e.out) : Abs(e.out[j]) <= e.peak + 3
            /\ new[1] # Unknown => Near(new[1], e.peak, 3)
            /\ par.t >= par.s => \A d \in 1..(far \div par.sp) : new[d * par.sp + 1] # Unknown => Near(new[d * par.sp + 1], 0, 3)
            /\ kern' = new /\ UNCHANGED <<par, obj, ref>>
    [] e.e = "Const" ->  \* a steady input, once the filter has seen nothing else
         /\ \A j \in 1..Len(e.out) : Near(e.out[j], e.value, e.tol)
         /\ UNCHANGED <<par, obj, ref, kern>>
    [] e.e = "Ramp" ->   \* input sample i has value i; outputs from e.from (latency taken off), in thousandths
         /\ \A j \in 1..Len(e.out) : Near(e.out[j], Milli(e.from + j - 1), 25)
         /\ UNCHANGED <<par, obj, ref, kern>>
    [] e.e = "Late" ->   \* the reference signal again, after "periods" common periods of silence
         /\ e.still
         /\ e.got \in Due(e.in)..(Due(e.in) + 1)
         /\ e.got = e.periods * par.sp + Len(e.out)
         /\ Len(e.out) > 0 /\ NearSeq(e.out, SubSeq(ref, 1, Len(e.out)), 2)
         /\ UNCHANGED <<par, obj, ref, kern>>
    [] e.e = "Tone" ->   \* in: the ideal output at those times (nothing, for a tone above the band)
         /\ NearSeq(e.out, e.in, e.tol) /\ UNCHANGED <<par, obj, ref, kern>>
    [] e.e = "OneShot" -> e.len = Due(e.n) /\ UNCHANGED <<par, obj, ref, kern>>
    [] e.e = "Identity" -> NearSeq(e.out, e.in, 2) /\ UNCHANGED <<par, obj, ref, kern>>
    [] e.e = "ByValue" -> NearSeq(e.out, e.other, 0) /\ UNCHANGED <<par, obj, ref, kern>>
    [] e.e = "Centred" ->  \* one-shot impulse: outputs from e.from; symmetric about, and largest at, its own time
         LET c == (e.i * par.sp) \div par.op - e.from + 1
         IN /\ (e.i * par.sp) % par.op = 0
            /\ c \in 1..Len(e.out) => Near(e.out[c], e.peak, 3)
            /\ \A j \in 1..Len(e.out) : /\ Abs(e.out[j]) <= e.peak + 3
                                        /\ 2 * c - j \in 1..Len(e.out) => Near(e.out[j], e.out[2 * c - j], 3)
         /\ UNCHANGED <<par, obj, ref, kern>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
