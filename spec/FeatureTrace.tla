------------------------------ MODULE FeatureTrace ------------------------------
(* What the segmenter holds: for each block the mean, over half-overlapping frames  *)
(* of the block brought down to its internal rate, of what its extractor gives; and  *)
(* the stages from what it holds to segment types.                                  *)
EXTENDS TraceBase, Trig
VARIABLES s,      \* the segmenter: type, ms, wms, hl, fs, factor, ready, feats
          pipe    \* stages done: [type, names, at, hop]
tv == <<s, pipe, l>>
None == [i \in {} |-> 0]
TraceInit == l = 1 /\ s = None /\ pipe = None
(* the least power of two (at most 8) not below the ratio to the internal rate       *)
Factor(type, fs) == LET ratio == fs \div (IF type = "mfcc" THEN 22050 ELSE 11025)
                    IN IF ratio <= 1 THEN 1 ELSE IF ratio = 2 THEN 2 ELSE IF ratio <= 4 THEN 4 ELSE 8
Windowed(t) == (t.fs * t.wms) \div 1000
Hop(t) == (t.fs * t.ms) \div 1000
(* frames start every half frame; the first is always taken (padded with zeros), the  *)
(* others only if they end before the end of the block                               *)
Frames(len, fft) == 1 + Cardinality({k \in 1..((2 * len) \div fft) : k * (fft \div 2) + fft < len})
Mean(frames, k) == [i \in 1..Len(frames[1]) |-> SumSeq([f \in 1..k |-> frames[f][i] \div k]) + RoundDiv(SumSeq([f \in 1..k |-> frames[f][i] % k]), k)]
Accepts(t, n) == t.ready /\ t.type # "given" /\ n >= Windowed(t)
ExtractOK(t, e) ==
  IF ~Accepts(t, e.n) THEN e.held = t.feats
  ELSE LET k == Frames(e.n \div t.factor, e.fft)  c == Len(t.feats) IN
       /\ Len(e.held) = c + 1 /\ SubSeq(e.held, 1, c) = t.feats
       /\ Len(e.frames) >= k /\ NearSeq(e.held[c + 1], Mean(e.frames, k), 1)
(* ---- stages ------------------------------------------------------------------- *)
Plan(type) == (CASE type = "constq" -> <<"normalise", "project">> [] type = "chroma" -> <<"fold">> [] OTHER -> <<>>)
              \o <<"scale", "states", "histograms", "cluster">>
RunLength(q, hop) ==
  FoldLeft(LAMBDA acc, i : IF i = 1 THEN <<0, hop, q[1]>>
                           ELSE IF q[i] = q[i - 1] THEN [acc EXCEPT ![Len(acc) - 1] = i * hop]
                           ELSE acc \o <<(i - 1) * hop, i * hop, q[i]>>,
           <<>>, [i \in 1..Len(q) |-> i])
Step(e) ==
  CASE e.e = "Scenario" -> s' = None /\ pipe' = None
    [] e.e = "Made" -> s' = [type |-> e.type, ms |-> e.ms, wms |-> e.wms, hl |-> e.hl, fs |-> 0, factor |-> 1, ready |-> FALSE, feats |-> <<>>] /\ UNCHANGED pipe
    [] e.e = "Initialise" ->
         LET t == [s EXCEPT !.fs = e.fs, !.factor = Factor(s.type, e.fs), !.ready = TRUE] IN
         /\ Holds(e.win = Windowed(t) /\ e.hop = Hop(t) /\ (s.type = "given" \/ e.factor = t.factor) /\ e.held = s.feats)
         /\ s' = t /\ UNCHANGED pipe
    [] e.e = "TooSoon" -> Holds(e.held = s.feats) /\ UNCHANGED <<s, pipe>>
    [] e.e = "Extract" -> Holds(ExtractOK(s, e)) /\ s' = [s EXCEPT !.feats = e.held] /\ UNCHANGED pipe
    [] e.e = "Clear" -> Holds(e.held = <<>>) /\ s' = [s EXCEPT !.feats = <<>>] /\ UNCHANGED pipe
    [] e.e = "Set" -> Holds(e.held = e.f) /\ s' = [s EXCEPT !.feats = e.f, !.type = "given"] /\ UNCHANGED pipe
    (* too few features to segment: nothing but the end of extraction                  *)
    [] e.e = "Segment" -> Holds(Len(s.feats) < s.hl /\ e.held = s.feats) /\ s' = [s EXCEPT !.ready = FALSE] /\ UNCHANGED pipe
    [] e.e = "Begin" -> pipe' = [type |-> e.type, done |-> <<>>, at |-> -1, hop |-> (e.fs * e.ms) \div 1000] /\ UNCHANGED s
    [] e.e = "Stage" -> /\ Holds(Len(pipe.done) < Len(Plan(pipe.type)) /\ Plan(pipe.type)[Len(pipe.done) + 1] = e.name /\ (pipe.at = -1 \/ pipe.at = e.in))
                        /\ pipe' = [pipe EXCEPT !.done = Append(@, e.name), !.at = e.out] /\ UNCHANGED s
    [] e.e = "Open" -> UNCHANGED <<s, pipe>>
    [] e.e = "Outcome" -> Holds(pipe.done = Plan(pipe.type) /\ e.segs = RunLength(e.q, pipe.hop) /\ e.held = <<>>) /\ UNCHANGED <<s, pipe>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
