----------------------------- MODULE TransformImpl -----------------------------
(* The packing of real and cosine transforms, exactly, over a prime field in      *)
(* which the roots of unity of every size in use exist: FFTReal with its mirrored *)
(* half spectrum, its inverse reading half of the spectrum, and DCT built on an   *)
(* FFTReal of four times its size with scratch arrays that survive between calls. *)
(* The underlying Fourier transform itself is taken by its defining sum.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS P,      \* the prime
          G,      \* a generator of its multiplicative group
          Sizes,  \* sizes n of the cosine transform, 4n dividing P-1
          MaxOps

VARIABLES n, time2, freq2r, freq2i,   \* the cosine transform object's scratch arrays
          arg, op, result, ops
vars == <<n, time2, freq2r, freq2i, arg, op, result, ops>>

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE LET h == Pow(b, e \div 2) s == (h * h) % P IN IF e % 2 = 1 THEN (s * b) % P ELSE s
Inv(a) == Pow(a % P, P - 2)
Half == Inv(2)
J == Pow(G, (P - 1) \div 4)                      \* a square root of -1
Root(m) == Pow(G, (P - 1) \div m)
(* cosine and sine of k/m of a turn *)
CosTab == TLCEval([m \in {4 * s : s \in Sizes} |-> [k \in 0..(m - 1) |-> (Half * (Pow(Root(m), k) + Inv(Pow(Root(m), k)))) % P]])
SinTab == TLCEval([m \in {4 * s : s \in Sizes} |-> [k \in 0..(m - 1) |-> (Half * Inv(J) * ((Pow(Root(m), k) - Inv(Pow(Root(m), k))) % P)) % P]])
C(k, m) == CosTab[m][k % m]
S(k, m) == SinTab[m][k % m]
Sum(s) == FoldLeft(LAMBDA a, x : (a + x) % P, 0, s)

(* --- defining sums, zero-based functions -------------------------------------- *)
DefRe(x, N) == [k \in 0..(N - 1) |-> Sum([i \in 1..N |-> x[i - 1] * C(k * (i - 1), N)])]
DefIm(x, N) == [k \in 0..(N - 1) |-> (P - Sum([i \in 1..N |-> x[i - 1] * S(k * (i - 1), N)])) % P]
DefDct(x, m) == [k \in 0..(m - 1) |-> (2 * Sum([i \in 1..m |-> x[i - 1] * C(k * (2 * i - 1), 4 * m)])) % P]

(* --- FFTReal as written -------------------------------------------------------- *)
FwdRe(x, N) == LET d == DefRe(x, N) IN [k \in 0..(N - 1) |-> IF k <= N \div 2 THEN d[k] ELSE d[N - k]]
FwdIm(x, N) == LET d == DefIm(x, N) IN [k \in 0..(N - 1) |-> IF k <= N \div 2 THEN d[k] ELSE (P - d[N - k]) % P]
(* the inverse deduces the other half from the first half and one                  *)
Back(re, im, N) ==
  LET fr(k) == IF k <= N \div 2 THEN re[k] ELSE re[N - k]
      fi(k) == IF k <= N \div 2 THEN im[k] ELSE (P - im[N - k]) % P
  IN [i \in 0..(N - 1) |-> (Inv(N) * Sum([k \in 1..N |-> fr(k - 1) * C((k - 1) * i, N) + (P - fi(k - 1)) * S((k - 1) * i, N)])) % P]

Vectors(m) == {[i \in 0..(m - 1) |-> IF i = b THEN 1 ELSE 0] : b \in 0..(m - 1)} \cup {[i \in 0..(m - 1) |-> (3 * i + 2) % P]}

Init == /\ n \in Sizes
        /\ time2 = [i \in 0..(4 * n - 1) |-> 0] /\ freq2r = [i \in 0..(4 * n - 1) |-> 0] /\ freq2i = [i \in 0..(4 * n - 1) |-> 0]
        /\ arg = <<>> /\ op = "none" /\ result = <<>> /\ ops = 0

Apply(x) ==
  /\ ops < MaxOps
  /\ time2' = [i \in 0..(4 * n - 1) |-> IF i % 2 = 1 THEN (IF i < 2 * n THEN x[(i - 1) \div 2] ELSE x[(4 * n - 1 - i) \div 2]) ELSE time2[i]]
  /\ freq2r' = FwdRe(time2', 4 * n) /\ freq2i' = FwdIm(time2', 4 * n)
  /\ result' = [k \in 0..(n - 1) |-> freq2r'[k]]
  /\ arg' = x /\ op' = "fwd" /\ ops' = ops + 1 /\ UNCHANGED n
Undo(x) ==
  /\ ops < MaxOps
  /\ freq2r' = [i \in 0..(4 * n - 1) |-> IF i = n THEN 0 ELSE IF i < n THEN x[i] ELSE IF i <= 2 * n THEN (P - x[2 * n - i]) % P ELSE freq2r[i]]
  /\ freq2i' = [i \in 0..(4 * n - 1) |-> IF i <= 2 * n THEN 0 ELSE freq2i[i]]
  /\ time2' = Back(freq2r', freq2i', 4 * n)
  /\ result' = [i \in 0..(n - 1) |-> time2'[2 * i + 1]]
  /\ arg' = x /\ op' = "inv" /\ ops' = ops + 1 /\ UNCHANGED n
Next == \E x \in Vectors(n) : Apply(x) \/ Undo(x)
Spec == Init /\ [][Next]_vars

(* every call yields its definition, whatever the scratch arrays held before       *)
ForwardIsDct == op = "fwd" => result = DefDct(arg, n)
InverseUndoes == op = "inv" => DefDct(result, n) = arg
(* which needs the even places of the time array to be zero after every call       *)
EvenPlacesZero == \A i \in 0..(4 * n - 1) : i % 2 = 0 => time2[i] = 0
(* the full spectrum is conjugate symmetric by definition, so mirroring loses nothing *)
MirrorSound == op = "none" => \A b \in 0..(4 * n - 1) :
   LET x == [i \in 0..(4 * n - 1) |-> IF i = b THEN 1 ELSE 0] IN
     /\ FwdRe(x, 4 * n) = DefRe(x, 4 * n) /\ FwdIm(x, 4 * n) = DefIm(x, 4 * n)
     /\ Back(DefRe(x, 4 * n), DefIm(x, 4 * n), 4 * n) = x
=============================================================================
