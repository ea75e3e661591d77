------------------------------- MODULE FramerImpl -------------------------------
(* The framer's source index and end-of-source arithmetic, with reads outside    *)
(* the source and writes outside the frame made visible.                         *)
EXTENDS DspOps
CONSTANTS MaxLen, Frames, Hops, MaxCalls
VARIABLES len, frame, hop, idx, calls, got, rd, wr
vars == <<len, frame, hop, idx, calls, got, rd, wr>>
(* source sample i (from 0) is represented by i + 1, silence by 0                *)
Want(k) == [i \in 1..frame |-> IF k * hop + i - 1 < len THEN k * hop + i ELSE 0]
MaxFrames == CeilDiv(len, hop)
Init == /\ len \in 0..MaxLen /\ frame \in Frames /\ hop \in Hops
        /\ idx = 0 /\ calls = 0 /\ got = <<>> /\ rd = {} /\ wr = {}
GetFrame ==
  /\ calls < MaxCalls
  /\ calls' = calls + 1
  /\ IF idx + frame < len
     THEN /\ got' = [i \in 1..frame |-> idx + i]
          /\ rd' = {idx + i - 1 : i \in 1..frame} /\ wr' = 1..frame
          /\ idx' = idx + frame - (frame - hop)
     ELSE LET rem == MaxI(0, len - idx)
              zero == frame - rem
          IN /\ got' = [i \in 1..frame |-> IF i <= rem THEN idx + i ELSE 0]
             /\ rd' = {idx + i - 1 : i \in 1..rem} /\ wr' = (1..rem) \cup {rem + i : i \in 1..zero}
             /\ idx' = idx + rem - (rem - hop)
  /\ UNCHANGED <<len, frame, hop>>
Reset == calls > 0 /\ idx' = 0 /\ calls' = 0 /\ got' = <<>> /\ rd' = {} /\ wr' = {} /\ UNCHANGED <<len, frame, hop>>
Next == GetFrame \/ Reset
Spec == Init /\ [][Next]_vars
FrameRight == calls > 0 => got = Want(calls - 1)
Inside == rd \subseteq 0..(len - 1) /\ (calls > 0 => wr = 1..frame)
(* frames up to the reported number cover every source sample when hop <= frame  *)
Cover == (hop <= frame) => \A i \in 0..(len - 1) : \E k \in 0..(MaxFrames - 1) : i \in (k * hop)..(k * hop + frame - 1)
=============================================================================
