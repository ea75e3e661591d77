------------------------------ MODULE ResamplerImpl ------------------------------
(* The push resampler: a buffer of input samples whose first element sits at     *)
(* filter position "phase", moved along by "drop" samples per output.  Virtual   *)
(* positions: input sample i at i*Sp, output j centred on (j - latency)*Op.      *)
EXTENDS DspOps
CONSTANTS MaxSpacing, FLens, Chunks, MaxIn
VARIABLES sp, op, flen,      \* spacings of input and output samples, filter length (odd)
          phase, first, size, \* filter phase; input index of buffer's first sample; buffer size
          nin, nout, cap, busy, base
vars == <<sp, op, flen, phase, first, size, nin, nout, cap, busy, base>>

H == flen \div 2
Lat == CeilDiv(flen - H, op)
Taps(p) == CeilDiv(flen - p, sp)
Drop(p) == IF op > p THEN CeilDiv(op - p, sp) ELSE 0
Next_(p) == (p - op) % sp          \* TLA+ % is never negative
Coprime(a, b) == \A d \in 2..a : ~(a % d = 0 /\ b % d = 0)

Init ==
  /\ sp \in 1..MaxSpacing /\ op \in 1..MaxSpacing /\ flen \in FLens
  /\ Coprime(sp, op)
  /\ flen >= sp                    \* every phase of the filter has a tap
  /\ phase = (H + Lat * op) % sp
  /\ first = -((H + Lat * op) \div sp) /\ size = -first
  /\ nin = 0 /\ nout = 0 /\ cap = 0 /\ busy = FALSE /\ base = 0
Call(k) ==
  /\ ~busy /\ nin + k <= MaxIn
  /\ size' = size + k /\ nin' = nin + k
  /\ cap' = CeilDiv(k * sp, op) /\ busy' = TRUE /\ base' = nout
  /\ UNCHANGED <<sp, op, flen, phase, first, nout>>
Emit ==
  /\ busy /\ cap > 0 /\ size >= Taps(phase)
  /\ nout' = nout + 1 /\ cap' = cap - 1
  /\ first' = first + Drop(phase) /\ size' = size - Drop(phase) /\ phase' = Next_(phase)
  /\ UNCHANGED <<sp, op, flen, nin, busy, base>>
Return ==
  /\ busy /\ ~(cap > 0 /\ size >= Taps(phase))
  /\ busy' = FALSE /\ cap' = 0
  /\ UNCHANGED <<sp, op, flen, phase, first, size, nin, nout, base>>
Next == Emit \/ Return \/ \E k \in Chunks : Call(k)
Spec == Init /\ [][Next]_vars

(* every output is centred on its own time, latency included                     *)
Aligned == first * sp - phase + H = (nout - Lat) * op /\ phase \in 0..(sp - 1)
(* and made only from a complete window                                          *)
Centre == (nout - Lat) * op
Complete == (busy /\ cap > 0 /\ size >= Taps(phase)) => nin - 1 >= (Centre + H) \div sp
(* every input inside the window is in the buffer or before the stream           *)
Covers == first <= CeilDiv(Centre - H, sp) \/ (Centre - H) <= first * sp
BufferSane == size >= 0 /\ first + size = nin
Counts == ~busy => /\ nout >= CeilDiv(nin * sp, op)
                   /\ nout <= CeilDiv(nin * sp, op) + 1
=============================================================================
