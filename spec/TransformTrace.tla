------------------------------ MODULE TransformTrace ------------------------------
(* Fourier and cosine transforms, by their defining sums.                          *)
EXTENDS TraceBase, Trig
VARIABLES objs,    \* [object |-> [kind, n]]
          seen     \* [<<kind, n, operation, arguments>> |-> result]: a result depends on nothing else
tv == <<objs, seen, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ objs = None /\ seen = None

(* x, y: integer parts; result in 1/10000, one coefficient                          *)
CosSum(x, k, N, tab) == SumSeq([i \in 1..Len(x) |-> IF x[i] = 0 THEN 0 ELSE x[i] * tab[(k * (i - 1)) % N]])
DftOK(re, im, ro, io, inv) ==
  LET N == Len(re)  c == CosTable(N)  s == SinTable(N)
      tol == SumAbs(re) + SumAbs(im) + 2  sg == IF inv THEN -1 ELSE 1
      wr(k) == CosSum(re, k, N, c) + sg * CosSum(im, k, N, s)
      wi(k) == CosSum(im, k, N, c) - sg * CosSum(re, k, N, s)
  IN /\ Len(ro) = N /\ Len(io) = N
     /\ \A k \in 0..(N - 1) : Near(ro[k + 1], wr(k), tol) /\ Near(io[k + 1], wi(k), tol)
(* the other half of the spectrum of a real signal                                   *)
Full(h, N, sg) == [k \in 1..N |-> IF k - 1 <= N \div 2 THEN h[k] ELSE sg * h[N - k + 2]]
(* cosine transform, in 1/10000                                                      *)
DctAt(x, k, n) == 2 * SumSeq([i \in 1..n |-> x[i] * Cos(k * (2 * i - 1), 4 * n)])
DctOK(x, out) == Len(out) = Len(x) /\ \A k \in 1..Len(x) : Near(out[k], DctAt(x, k - 1, Len(x)), 2 * SumAbs(x) + 2)
(* its inverse, times n, in 1/10000                                                  *)
IDctAt(X, i, n) == 5000 * X[1] + SumSeq([k \in 1..(n - 1) |-> X[k + 1] * Cos(k * (2 * i - 1), 4 * n)])
IDctOK(X, out) == Len(out) = Len(X) /\ \A i \in 1..Len(X) : Near(out[i], IDctAt(X, i, Len(X)), SumAbs(X) + 2)
(* orthonormal scaling: by sqrt(1/(2n)), the first by a further sqrt(1/2); out in 1/100   *)
UScale(n, k) == SqrtI(IF k = 0 THEN 100000000 \div (4 * n) ELSE 100000000 \div (2 * n))
UDctOK(x, out) == Len(out) = Len(x) /\ \A k \in 1..Len(x) :
   Near(out[k], RoundDiv(RoundDiv(DctAt(x, k - 1, Len(x)), 100) * UScale(Len(x), k - 1), 10000), 2)
Energy(s) == SumSeq([i \in 1..Len(s) |-> s[i] * s[i]])
(* a few impulses: v[j] at place p[j] of N; bin k                                     *)
ImpRe(e, k) == SumSeq([j \in 1..Len(e.v) |-> e.v[j] * Cos((k * e.p[j]) % e.n, e.n)])
ImpIm(e, k) == -SumSeq([j \in 1..Len(e.v) |-> e.v[j] * Sin((k * e.p[j]) % e.n, e.n)])

IsObj(e, kind) == e.o \in DOMAIN objs /\ objs[e.o] = [kind |-> kind, n |-> e.n]
(* results in units of a millionth of the scale of the arguments                      *)
Same(e, key) == LET k == <<objs[e.o], e.op, e.arg>> IN k \in DOMAIN seen => NearSeq(e.res, seen[k], 1)
Step(e) ==
  CASE e.e = "Scenario" -> objs' = None /\ seen' = None
    [] e.e = "New" -> objs' = Put(objs, e.o, [kind |-> e.kind, n |-> e.n]) /\ UNCHANGED seen
    [] e.e = "Refused" -> e.kind = "real" /\ e.n % 2 = 1 /\ UNCHANGED <<objs, seen>>
    [] e.e = "Gone" -> objs' = [k \in DOMAIN objs \ {e.o} |-> objs[k]] /\ UNCHANGED seen
    (* the defining sums, small sizes *)
    [] e.e = "Complex" -> Holds(IsObj(e, "complex") /\ DftOK(e.re, IF e.null THEN Zeros(e.n) ELSE e.im, e.ro, e.io, e.inv)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Real" -> Holds(IsObj(e, "real") /\ DftOK(e.x, Zeros(e.n), e.ro, e.io, FALSE)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "RealInv" -> Holds(IsObj(e, "real") /\ DftOK(Full(e.re, e.n, 1), Full(e.im, e.n, -1), e.out, Zeros(e.n), TRUE)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Magnitude" -> Holds(IsObj(e, "real") /\ Len(e.mag) = e.n /\ \A k \in 1..e.n : Near(e.mag[k], SqrtI(e.ro[k] * e.ro[k] + e.io[k] * e.io[k]), 2)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Dct" -> Holds(IsObj(e, "dct") /\ CASE e.op = "fwd" -> DctOK(e.x, e.out) [] e.op = "inv" -> IDctOK(e.x, e.out)
                              [] e.op = "ufwd" -> UDctOK(e.x, e.out) /\ Near(Energy(e.out), 10000 * Energy(e.x), 200 * SumAbs(e.x) + 400 * e.n)) /\ UNCHANGED <<objs, seen>>
    (* any size *)
    [] e.e = "Impulses" -> Holds(\A i \in 1..Len(e.k) : Near(e.ro[i], ImpRe(e, e.k[i]), SumAbs(e.v) + 2) /\ Near(e.io[i], ImpIm(e, e.k[i]), SumAbs(e.v) + 2)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Tone" -> Holds(e.bins = (IF e.f = 0 \/ 2 * e.f = e.n THEN <<e.f>> ELSE <<e.f, e.n - e.f>>) /\ \A i \in 1..Len(e.bins) : e.mags[i] = (IF Len(e.bins) = 1 THEN 2000000 ELSE 1000000)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "RoundTrip" -> Holds(NearSeq(e.x, e.y, 1)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Symmetric" -> Holds(\A k \in 1..(Len(e.re) - 1) : Near(e.re[k + 1], e.re[Len(e.re) - k + 1], 1) /\ Near(e.im[k + 1], -e.im[Len(e.im) - k + 1], 1)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Agree" -> Holds(NearSeq(e.x, e.y, 1)) /\ UNCHANGED <<objs, seen>>
    [] e.e = "Result" -> /\ Holds(e.o \in DOMAIN objs /\ Same(e, 0))
                         /\ seen' = Put(seen, <<objs[e.o], e.op, e.arg>>, e.res) /\ UNCHANGED objs
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
