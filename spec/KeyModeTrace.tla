------------------------------- MODULE KeyModeTrace -------------------------------
(* Key detection: mean chroma of the last B blocks, correlated with the major and   *)
(* minor profiles in every rotation; the running median of the last W raw keys.     *)
(* Chroma values in units of 1/2000.                                                 *)
EXTENDS TraceBase, DspOps
VARIABLES set,      \* [B, W] window lengths in blocks
          win,      \* [object |-> last B chroma vectors]
          raw,      \* [object |-> last W raw keys]
          last      \* [object |-> key reported last]
tv == <<set, win, raw, last, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ set = [B |-> 1, W |-> 1] /\ win = None /\ raw = None /\ last = None

Major == <<384, 629, 258, 121, 146, 106, 364, 610, 267, 126, 121, 86, 364, 623, 279, 275, 414, 186,
           173, 248, 145, 364, 631, 262, 129, 150, 98, 312, 521, 235, 129, 142, 95, 289, 478, 239>>
Minor == <<375, 682, 299, 119, 138, 93, 296, 543, 257, 292, 519, 246, 159, 234, 135, 291, 544, 248,
           137, 176, 104, 352, 670, 302, 222, 349, 164, 174, 297, 166, 222, 401, 202, 175, 270, 146>>
ISqrt(x) == LET go[k \in 0..16] == IF k = 16 THEN 0
                                   ELSE LET r == go[k + 1]  c == r + 2 ^ k IN IF c <= 46340 /\ c * c <= x THEN c ELSE r
            IN go[0]
(* zero-mean version of a vector, times k (k divides 36)                             *)
Centred(v, k) == LET s == SumSeq(v) IN TLCEval([i \in 1..36 |-> (36 * v[i] - s) \div (36 \div k)])
Norm(v) == ISqrt(SumSeq([i \in 1..36 |-> v[i] * v[i]]))
MajC == Centred(Major, 4)  MinC == Centred(Minor, 4)  MajN == Norm(MajC)  MinN == Norm(MinC)
Mean(vs) == [i \in 1..36 |-> SumSeq([j \in 1..Len(vs) |-> vs[j][i]]) \div Len(vs)]
(* correlation, in ten-thousandths, of d with profile p turned to bin k (0..35): its     *)
(* peak at the second bin of a semitone, the chroma's at the first                   *)
Corr(d, dn, p, pn, k) ==
  LET num == SumSeq([i \in 1..36 |-> d[i] * p[((i - 1 - k + 2 + 36) % 36) + 1]])
      den == (dn * pn) \div 1000
  IN IF den = 0 THEN 0 ELSE (IF num >= 0 THEN (num * 10) \div den ELSE -((-num * 10) \div den))
Strengths(vs) ==
  LET d == Centred(Mean(vs), 1)  dn == Norm(d)
      three(p, pn, key) == MaxSeq([r \in 1..3 |-> Corr(d, dn, p, pn, 3 * key + r - 1)])
  IN [key \in 1..24 |-> IF key <= 12 THEN three(MajC, MajN, key - 1) ELSE three(MinC, MinN, key - 13)]
Silent(vs) == \A j \in 1..Len(vs) : \A i \in 1..36 : vs[j][i] = 0
LastOf(s, x, n) == LET t == Append(s, x) IN IF Len(t) > n THEN Tail(t) ELSE t
(* the best correlated key; minor wins a tie                                         *)
First(s, lo, hi) == CHOOSE i \in lo..hi : /\ \A j \in lo..hi : s[j] <= s[i]
                                          /\ \A j \in lo..(i - 1) : s[j] < s[i]
RawKey(s) == LET a == First(s, 1, 12)  b == First(s, 13, 24) IN IF s[a] > s[b] THEN a ELSE b
LowerMedian(s) == SortInts(s)[CeilDiv(Len(s), 2)]

IsPow2(n) == n \in {2 ^ k : k \in 0..24}
StrengthsOK(e, vs) == IF Silent(vs) THEN \A k \in 1..24 : e.s[k] = 0
                      ELSE NearSeq(e.s, Strengths(vs), 40)
Step(e) ==
  CASE e.e = "Scenario" -> set' = [B |-> e.B, W |-> e.W] /\ win' = None /\ raw' = None /\ last' = None
    [] e.e = "New" -> /\ e.block = e.frame * e.dec /\ IsPow2(e.frame) /\ e.hop * e.overlap = e.block
                      /\ win' = Put(win, e.k, <<>>) /\ raw' = Put(raw, e.k, <<>>) /\ last' = Put(last, e.k, 0) /\ UNCHANGED set
    [] e.e = "Process" ->
         LET vs == LastOf(win[e.k], e.chroma, set.B)
             ks == LastOf(raw[e.k], RawKey(e.rank), set.W)
         IN /\ Holds(StrengthsOK(e, vs))
            /\ e.key = LowerMedian(ks) /\ e.key \in 1..24
            /\ win' = Put(win, e.k, vs) /\ raw' = Put(raw, e.k, ks) /\ last' = Put(last, e.k, e.key) /\ UNCHANGED set
    [] e.e = "Twin" -> e.same /\ e.key = last[e.k] /\ UNCHANGED <<set, win, raw, last>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
