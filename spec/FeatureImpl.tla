------------------------------ MODULE FeatureImpl ------------------------------
(* The segmenter's life cycle as it is coded: extractor and decimator are made for a  *)
(* sample rate, dropped by segmentation and by the next initialisation; a block is    *)
(* brought down by the decimator if there is one, and walked in half-overlapping      *)
(* frames.  Checked against the history: what is held is one feature per accepted      *)
(* block since the last clearing, each made for the rate then in force from as many     *)
(* frames as specified, and no block is ever read or written beyond its end.            *)
EXTENDS Integers, Sequences
CONSTANTS Rates, MaxFactor, Ffts, WindowOf(_), MaxHeld, Careful
VARIABLES rate, dec, ext, feats, hist, beyond
vars == <<rate, dec, ext, feats, hist, beyond>>
(* dec: [factor, len] or none; ext: rate the extractor works at, or none             *)
NoDec == [factor |-> 0, len |-> 0]
Init == rate = 0 /\ dec = NoDec /\ ext = 0 /\ feats = <<>> /\ hist = <<>> /\ beyond = FALSE
RECURSIVE Up(_, _)
Up(f, want) == IF f >= want \/ f >= MaxFactor THEN f ELSE Up(2 * f, want)
FactorFor(r) == Up(1, r)
Initialise(r) == /\ rate' = r /\ ext' = r \div FactorFor(r)
                 /\ dec' = IF FactorFor(r) > 1 THEN [factor |-> FactorFor(r), len |-> WindowOf(r)] ELSE IF Careful THEN NoDec ELSE dec
                 /\ UNCHANGED <<feats, hist, beyond>>
RECURSIVE Walk(_, _, _, _)
Walk(origin, frames, len, fft) == IF origin > len \/ (origin > 0 /\ origin + fft >= len) THEN frames ELSE Walk(origin + fft \div 2, frames + 1, len, fft)
FramesSpec(len, fft) == LET more == {k \in 1..(2 * len) : k * (fft \div 2) + fft < len} IN IF more = {} THEN 1 ELSE 1 + CHOOSE k \in more : \A j \in more : j <= k
Extract(extra, fft) ==
  /\ Len(feats) < MaxHeld
  /\ IF ext = 0 THEN UNCHANGED <<feats, hist, beyond>>
     ELSE LET n == WindowOf(rate) + extra
              len == IF dec = NoDec THEN n ELSE n \div dec.factor IN
          /\ beyond' = (beyond \/ (dec # NoDec /\ (dec.len > n \/ dec.len \div dec.factor > len)))
          /\ feats' = Append(feats, [at |-> IF dec = NoDec THEN rate ELSE rate \div dec.factor, frames |-> Walk(0, 0, len, fft)])
          /\ hist' = Append(hist, [at |-> rate \div FactorFor(rate), frames |-> FramesSpec(n \div FactorFor(rate), fft)])
  /\ UNCHANGED <<rate, dec, ext>>
Clear == feats' = <<>> /\ hist' = <<>> /\ UNCHANGED <<rate, dec, ext, beyond>>
Segment == dec' = NoDec /\ ext' = 0 /\ feats' = <<>> /\ hist' = <<>> /\ UNCHANGED <<rate, beyond>>
Next == Clear \/ Segment \/ (\E r \in Rates : Initialise(r)) \/ (\E x \in {0, 1}, f \in Ffts : Extract(IF dec = NoDec THEN x ELSE 0, f))
Spec == Init /\ [][Next]_vars
HeldAsSpecified == feats = hist
WithinBlocks == ~beyond
RightDecimator == ext # 0 => (dec = NoDec) = (FactorFor(rate) = 1) /\ (dec # NoDec => dec.len = WindowOf(rate))
W3(r) == 3 * r + 1
================================================================================
