----------------------------- MODULE InstanceTrace -----------------------------
(* What an object returns is determined by its class, its settings and the calls    *)
(* made of it since it was made or last reset, or by nothing but the call itself     *)
(* where the class promises to be stateless: never by other objects, by earlier      *)
(* objects, or by what its memory held before.                                       *)
EXTENDS TraceBase
VARIABLES objs,     \* objects of this process: class, settings and inputs since the start or reset
          known     \* every result seen, by class, settings and history, in whichever process
tv == <<l, objs, known>>
Stateless == {"Resample", "Window", "Kaiser", "FFT", "FFTReal", "DCT", "ConstantQ", "Chromagram", "MFCC", "PeakPicking", "DFProcess", "FiltFilt",
              "TempoTrack", "TempoTrackV2", "DownBeat", "Tonal", "Distance", "MedianRun", "Segmenter", "Maths"}
Resettable == {"Filter", "Decimator", "PhaseVocoder", "Median", "Framer"}
Keeping == {"DownBeatPush", "DecimatorB", "Resampler", "DetectionFunction", "KeyMode"} \cup Resettable
(* inputs named from here on hold values that are not numbers, infinite, huge or minute *)
Bad == 1000000
TraceInit == l = 1 /\ objs = << >> /\ known = << >>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Start == objs' = << >> /\ known' = << >>
Step(e) ==
  CASE e.e = "Scenario" -> Start
    [] e.e = "Process" -> objs' = << >> /\ UNCHANGED known
    [] e.e = "New" -> /\ Holds(e.o \notin DOMAIN objs /\ e.cls \in Stateless \cup Keeping)
                      /\ objs' = With(objs, e.o, [cls |-> e.cls, set |-> e.set, hist |-> << >>]) /\ UNCHANGED known
    [] e.e = "Call" -> /\ Holds(e.o \in DOMAIN objs)
                       /\ LET ob == objs[e.o]  h == Append(ob.hist, e.in)  key == <<ob.cls, ob.set, h>> IN
                          /\ Holds(key \in DOMAIN known => known[key] = e.out)
                          /\ known' = With(known, key, e.out)
                          /\ objs' = IF ob.cls \in Stateless THEN objs ELSE With(objs, e.o, [ob EXCEPT !.hist = h])
    [] e.e = "Again" -> /\ Holds(e.o \in DOMAIN objs)                       \* a call whose result is known
                        /\ LET ob == objs[e.o]  h == Append(ob.hist, e.in)  key == <<ob.cls, ob.set, h>> IN
                           /\ Holds(key \in DOMAIN known) /\ Holds(known[key] = e.out)
                           /\ objs' = IF ob.cls \in Stateless THEN objs ELSE With(objs, e.o, [ob EXCEPT !.hist = h])
                        /\ UNCHANGED known
    [] e.e = "Reset" -> /\ Holds(e.o \in DOMAIN objs) /\ Holds(objs[e.o].cls \in Resettable)
                        /\ objs' = [objs EXCEPT ![e.o].hist = << >>] /\ UNCHANGED known
    [] e.e = "Delete" -> Holds(e.o \in DOMAIN objs) /\ objs' = Without(objs, e.o) /\ UNCHANGED known
    (* known_findings.txt: given values that are not numbers, the principal component    *)
    (* analysis ends the process                                                          *)
    [] e.e = "Exited" -> /\ Holds(e.o \in DOMAIN objs)
                         /\ Holds(e.in >= Bad)
                         /\ Holds(LET c == objs[e.o].cls IN
                                  \/ c = "Segmenter" /\ e.status = 1
                                  \/ c = "Maths" /\ e.in % 6 = 5 /\ e.status = 1)
                         /\ objs' = << >> /\ UNCHANGED known
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
================================================================================
