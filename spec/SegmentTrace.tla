------------------------------ MODULE SegmentTrace ------------------------------
(* Structural segmentation: features in, adjoining segments out.                   *)
EXTENDS TraceBase, Trig
VARIABLES obj,     \* [fs, hop, nc, hl]
          feats,   \* features held
          owed,    \* what the next reported segmentation must be
          segs     \* segmentation reported last (flattened start, end, type)
tv == <<obj, feats, owed, segs, l>>
None == [i \in {} |-> 0]
TraceInit == l = 1 /\ obj = None /\ feats = 0 /\ owed = [k |-> "none"] /\ segs = <<>>

NSeg(s) == Len(s) \div 3
Start(s, i) == s[3 * i - 2]   End(s, i) == s[3 * i - 1]   Type(s, i) == s[3 * i]
(* n frames of hop samples, tiled by segments of alternating type from 1..nc          *)
Tiles(s, n, hop, nc) ==
  /\ Len(s) % 3 = 0 /\ NSeg(s) >= 1
  /\ Start(s, 1) = 0 /\ End(s, NSeg(s)) = n * hop
  /\ \A i \in 1..NSeg(s) : /\ End(s, i) > Start(s, i) /\ End(s, i) % hop = 0 /\ Type(s, i) \in 1..nc
                           /\ i < NSeg(s) => Start(s, i + 1) = End(s, i) /\ Type(s, i + 1) # Type(s, i)
RunLength(q, hop) ==
  FoldLeft(LAMBDA acc, i : IF i = 1 THEN <<0, hop, q[1]>>
                           ELSE IF q[i] = q[i - 1] THEN [acc EXCEPT ![Len(acc) - 1] = i * hop]
                           ELSE acc \o <<(i - 1) * hop, i * hop, q[i]>>,
           <<>>, [i \in 1..Len(q) |-> i])
(* histogram of the hl states around each frame (nearest full window at the ends),    *)
(* divided by its sum of squares                                                     *)
Hist(x, m, hl) == LET n == Len(x)  half == hl \div 2
                      c(i) == MaxI(half + 1, MinI(n - half, i))
                      h(i) == TLCEval([s \in 1..m |-> Cardinality({t \in (c(i) - half)..(c(i) + half) : x[t] = s - 1})])
                      row(i) == LET v == h(i)  ss == SumSeq([s \in 1..m |-> v[s] * v[s]]) IN [s \in 1..m |-> RoundDiv(v[s] * 10000, ss)]
                  IN [i \in 1..n |-> row(i)]
HistOK(e) == LET want == Hist(e.x, e.m, e.hl) IN Len(e.h) = Len(e.x) * e.m /\ \A i \in 1..Len(e.x) : \A s \in 1..e.m : Near(e.h[(i - 1) * e.m + s], want[i][s], 1)
Fold(e) == [k \in 1..(e.nf * e.bins) |-> LET i == (k - 1) \div e.bins  b == (k - 1) % e.bins
             IN SumSeq([o \in 1..(e.nc \div e.bins) |-> Abs(e.cq[i * e.nc + (o - 1) * e.bins + b + 1])])]
(* decibels (10 p for 10^p), scaled to unit length, and the lengths relative to the longest *)
Mpeg7OK(e) == LET len(i) == SqrtI(SumSeq([j \in 1..e.nc |-> e.p[(i - 1) * e.nc + j] * e.p[(i - 1) * e.nc + j]]) * 1000000)
                  top == MaxSeq([i \in 1..e.nf |-> len(i)])
              IN \A i \in 1..e.nf : /\ Near(e.env[i], RoundDiv(len(i) * 10000, top), 3)
                                    /\ \A j \in 1..e.nc : Near(e.out[(i - 1) * e.nc + j], RoundDiv(e.p[(i - 1) * e.nc + j] * 10000000, len(i)), 3)
Step(e) ==
  CASE e.e = "Scenario" -> obj' = None /\ feats' = 0 /\ owed' = [k |-> "none"] /\ segs' = <<>>
    [] e.e = "Histograms" -> Holds(HistOK(e)) /\ UNCHANGED <<obj, feats, owed, segs>>
    [] e.e = "Fold" -> e.chroma = Fold(e) /\ UNCHANGED <<obj, feats, owed, segs>>
    [] e.e = "Mpeg7" -> Holds(Mpeg7OK(e)) /\ UNCHANGED <<obj, feats, owed, segs>>
    [] e.e = "Cluster" -> Len(e.c) = e.n /\ Holds(\A i \in 1..e.n : e.c[i] \in 1..e.k) /\ UNCHANGED <<obj, feats, owed, segs>>
    [] e.e = "New" -> /\ e.hop = (e.fs * e.ms) \div 1000 /\ e.win = (e.fs * e.wms) \div 1000
                      /\ obj' = [fs |-> e.fs, hop |-> e.hop, nc |-> e.nc, hl |-> e.hl] /\ feats' = 0 /\ segs' = <<>> /\ owed' = [k |-> "none"]
    [] e.e = "Add" -> feats' = feats + e.n /\ UNCHANGED <<obj, owed, segs>>
    [] e.e = "Set" -> feats' = e.n /\ UNCHANGED <<obj, owed, segs>>
    [] e.e = "Clear" -> feats' = 0 /\ UNCHANGED <<obj, owed, segs>>
    [] e.e = "RunLength" -> owed' = [k |-> "runs", q |-> e.q] /\ UNCHANGED <<obj, feats, segs>>
    [] e.e = "Segment" -> /\ owed' = IF feats < obj.hl THEN [k |-> "same"] ELSE [k |-> "tiles", n |-> feats]
                          /\ feats' = (IF feats < obj.hl THEN feats ELSE 0)
                          /\ obj' = [obj EXCEPT !.nc = e.nc] /\ UNCHANGED segs
    [] e.e = "Segments" ->
         /\ CASE owed.k = "runs" -> e.segs = RunLength(owed.q, obj.hop) /\ e.types = obj.nc /\ e.rate = obj.fs
              [] owed.k = "same" -> e.segs = segs
              [] owed.k = "tiles" -> Holds(Tiles(e.segs, owed.n, obj.hop, obj.nc)) /\ e.types = obj.nc /\ e.rate = obj.fs
         /\ segs' = e.segs /\ owed' = [k |-> "none"] /\ UNCHANGED <<obj, feats>>
    [] e.e = "Printed" -> e.form /\ NearSeq(e.segs, segs, 1) /\ UNCHANGED <<obj, feats, owed, segs>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
