------------------------------- MODULE ChromaTrace -------------------------------
(* Constant-Q transform and chromagram, by their definitions.                     *)
EXTENDS TraceBase, Trig
VARIABLES cq,      \* parameters of the constant-Q object under test
          obj,     \* [chromagram |-> its parameters]
          seen     \* [<<chromagram, block>> |-> result]: a frame's result never changes
tv == <<cq, obj, seen, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ cq = None /\ obj = None /\ seen = None

(* 10000 / (2^(1/bpo) - 1)                                                         *)
Q4(bpo) == CASE bpo = 1 -> 10000 [] bpo = 2 -> 24142 [] bpo = 3 -> 38473 [] bpo = 4 -> 52852 [] bpo = 5 -> 67251
             [] bpo = 6 -> 81658 [] bpo = 12 -> 168172 [] bpo = 24 -> 341271 [] bpo = 36 -> 514385 [] bpo = 48 -> 687506 [] bpo = 60 -> 860627
Cover(n) == CHOOSE p \in {2 ^ k : k \in 0..20} : p >= n /\ \A k \in 0..20 : 2 ^ k >= n => p <= 2 ^ k
FrameOK(bpo, ratio, frame, hop) == /\ LET need == CeilDiv(Q4(bpo) * ratio, 10000) IN frame = Cover(need) \/ (bpo = 1 /\ frame = Cover(ratio))
                                   /\ hop = frame \div 8

(* Hamming window of length n, in units of 1/10000                                  *)
Hamming(i, n) == 5400 - (4600 * Cos(i, n)) \div 10000
(* the kernel of one bin: a windowed complex tone of q/len turns a sample, in the   *)
(* middle of the frame, in units of 1/10000                                         *)
Turns(q4, i, len) == RoundDiv(((q4 * i) \div len) * 256, 625)    \* in 1/4096 turns
Kernel(q4, len, N) ==
  LET origin == N \div 2 - len \div 2
      at(n, Fn(_, _)) == LET i == n - origin IN
         IF i < 0 \/ i >= len THEN 0 ELSE (Hamming(i, len) * Fn(Turns(q4, i, len), 4096)) \div 10000
  IN TLCEval([re |-> [n \in 0..(N - 1) |-> at(n, Cos)], im |-> [n \in 0..(N - 1) |-> at(n, Sin)]])
(* what the transform yields for a frame x (zero index first), per bin, times 1000   *)
CQBin(q4, len, x) ==
  LET N == Len(x)  k == Kernel(q4, len, N)
      idx(n) == ((N - n) + N \div 2) % N
      sum(f) == SumSeq([n \in 1..N |-> x[n] * f[idx(n - 1)]])
  IN <<RoundDiv(sum(k.re), 10 * len), -RoundDiv(sum(k.im), 10 * len)>>
(* a time-domain block: Hamming window, zero index moved to the middle, no offset;   *)
(* in tenths                                                                        *)
Prepared(x) == LET N == Len(x)
                   w == TLCEval([n \in 1..N |-> (x[n] * Hamming(n - 1, N)) \div 1000])
                   m == RoundDiv(SumSeq(w), N)
               IN TLCEval([n \in 1..N |-> w[((n - 1 + N \div 2) % N) + 1] - m])
Hypot(a, b) == IF MaxI(Abs(a), Abs(b)) <= 30000 THEN SqrtI(a * a + b * b) ELSE 2 * SqrtI((a \div 2) * (a \div 2) + (b \div 2) * (b \div 2))
Fold(mags, bpo) == [i \in 1..bpo |-> SumSeq([o \in 1..(Len(mags) \div bpo) |-> mags[(o - 1) * bpo + i]])]
Mags(re, im) == TLCEval([j \in 1..Len(re) |-> Hypot(re[j], im[j])])
Normalised(v, norm) ==
  CASE norm = "none" -> v
    [] norm = "max" -> LET m == MaxSeq(v) IN [i \in 1..Len(v) |-> IF m = 0 THEN 0 ELSE (v[i] * 10000) \div m]
    [] norm = "sum" -> LET m == SumSeq(v) IN [i \in 1..Len(v) |-> IF m = 0 THEN 0 ELSE (v[i] * 10000) \div m]
Combine(a, X, b, Y) == [i \in 1..Len(X) |-> a * X[i] + b * Y[i]]
(* an orphaned bin beyond the last octave may come from rounding, never a missing one *)
KOK(K, bpo, oct) == K \in {bpo * oct, bpo * oct + 1}

Step(e) ==
  CASE e.e = "Scenario" -> cq' = None /\ obj' = None /\ seen' = None
    [] e.e = "CQNew" -> /\ Holds(FrameOK(e.bpo, e.ratio, e.frame, e.hop)) /\ e.K = e.want /\ Near(e.q, Q4(e.bpo), 1)
                        /\ cq' = [q |-> Q4(e.bpo), len |-> e.len, N |-> e.frame, K |-> e.K] /\ UNCHANGED <<obj, seen>>
    [] e.e = "CQ" -> /\ Holds(\A j \in 1..cq.K : LET c == CQBin(cq.q, cq.len[j], e.x) IN Near(e.re[j], c[1], 120) /\ Near(e.im[j], c[2], 120))
                     /\ Holds(NearSeq(e.re, e.re2, 1) /\ NearSeq(e.im, e.im2, 1))
                     /\ UNCHANGED <<cq, obj, seen>>
    [] e.e = "ChromaNew" -> /\ Holds(FrameOK(e.bpo, e.ratio, e.frame, e.hop)) /\ KOK(e.K, e.bpo, e.oct) /\ Near(e.q, Q4(e.bpo), 1)
                            /\ obj' = Put(obj, e.k, [q |-> Q4(e.bpo), len |-> e.len, bpo |-> e.bpo, oct |-> e.oct, norm |-> e.norm]) /\ UNCHANGED <<cq, seen>>
    [] e.e = "Direct" ->
         LET o == obj[0]  x == Prepared(e.x)
             m == TLCEval([j \in 1..(o.bpo * o.oct) |-> LET c == CQBin(o.q, o.len[j], x) IN Hypot(RoundDiv(c[1], 10), RoundDiv(c[2], 10))])
         IN Holds(NearSeq(e.chroma, Fold(m, o.bpo), 150 * o.oct)) /\ UNCHANGED <<cq, obj, seen>>
    [] e.e = "Chroma" ->
         LET o == obj[e.k]  want == Normalised(Fold(Mags(e.re, e.im), o.bpo), o.norm)  b == <<e.k, e.blk>>
         IN /\ Holds(NearSeq(e.chroma, want, IF o.norm = "none" THEN 2 + 2 * o.oct ELSE 6))
            /\ Holds(b \in DOMAIN seen => NearSeq(e.chroma, seen[b], 1))
            /\ seen' = Put(seen, b, e.chroma) /\ UNCHANGED <<cq, obj>>
    [] e.e = "Tone" -> LET m == Mags(e.re, e.im) IN Holds(\A i \in 1..Len(m) : i # e.j => m[i] < m[e.j]) /\ e.amp > 2000 /\ e.amp < 3400 /\ UNCHANGED <<cq, obj, seen>>
    [] e.e = "Outside" -> Holds(LET far(p, n) == 2 * MinI(p, cq.N - p) > n + 2 IN
                            \A j \in 1..cq.K : far(e.p, cq.len[j]) /\ far(e.q, cq.len[j]) => Abs(e.re[j]) <= 1 /\ Abs(e.im[j]) <= 1)
                          /\ UNCHANGED <<cq, obj, seen>>
    [] e.e = "Threshold" -> e.d <= 1001 /\ UNCHANGED <<cq, obj, seen>>  \* difference made, in thousandths of the greatest there may be
    [] e.e = "Linear" -> /\ Holds(NearSeq(e.Z, Combine(e.a, e.X, e.b, e.Y), 6) /\ NearSeq(e.Zi, Combine(e.a, e.Xi, e.b, e.Yi), 6))
                         /\ Holds(NearSeq(e.W, e.Z, 1) /\ NearSeq(e.Wi, e.Zi, 1)) /\ UNCHANGED <<cq, obj, seen>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
