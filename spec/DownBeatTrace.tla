------------------------------- MODULE DownBeatTrace -------------------------------
(* DownBeat: the buffer of decimated audio (a queue of samples that only grows or is *)
(* emptied), and the choice of down-beats from the beat spectral differences.        *)
EXTENDS TraceBase, DspOps
VARIABLES fine, \* the finer of the two configurations is in use
          per, go, fresh,   \* samples per block; buffered samples with the decimation state carried on / restarted at the last reset
          bpb,              \* beats per bar as set (0: four)
          known             \* {a, b}, fine or not -> spectral difference seen between the two contents
tv == <<fine, per, go, fresh, bpb, known, l>>
None == [i \in {} |-> 0]
TraceInit == l = 1 /\ fine = FALSE /\ per = 0 /\ go = <<>> /\ fresh = <<>> /\ bpb = 0 /\ known = None

Bar == IF bpb = 0 THEN 4 ELSE bpb
(* differences at the beats that phase b of a bar would make down-beats               *)
AtPhase(sd, b) == LET idx == {i \in 1..Len(sd) : i % Bar = b % Bar} IN idx
SumAt(sd, S) == FoldLeft(LAMBDA acc, i : IF i \in S THEN acc + sd[i] ELSE acc, 0, [i \in 1..Len(sd) |-> i])
MeanAt(sd, b) == LET S == AtPhase(sd, b) IN IF S = {} THEN 0 ELSE SumAt(sd, S) \div Cardinality(S)
Progression(first, n) == [k \in 1..(IF n <= first THEN 0 ELSE CeilDiv(n - first, Bar)) |-> first + (k - 1) * Bar]
Ln2 == 693148
Tol == 3
FindOK(e) ==
  LET k == Len(e.before)
      new == SubSeq(e.out, k + 1, Len(e.out))
  IN /\ e.same /\ e.kept
     /\ Len(e.out) >= k /\ SubSeq(e.out, 1, k) = e.before
     /\ IF ~e.audio THEN new = <<>> /\ e.sd = <<>>
        ELSE /\ Len(e.sd) = MaxI(0, e.beats - 2)
             /\ \A i \in 1..Len(e.sd) : e.sd[i] \in (-Tol)..(Ln2 + Tol)
             /\ \E first \in 0..(Bar - 1) :
                  /\ \A b \in 0..(Bar - 1) : MeanAt(e.sd, b) <= MeanAt(e.sd, first) + Tol
                  /\ new = Progression(first, e.beats)
(* the difference is a symmetric function of the two contents: none between equal ones *)
Pair(e, i) == <<MinI(e.notes[i], e.notes[i + 1]), MaxI(e.notes[i], e.notes[i + 1]), fine>>
NotesOK(e) ==
  (e.audio /\ e.notesKnown) =>
    \A i \in 1..Len(e.sd) :
      IF e.notes[i] = e.notes[i + 1] THEN e.sd[i] <= 200
      ELSE /\ e.sd[i] >= 100000
           /\ Pair(e, i) \in DOMAIN known => Near(e.sd[i], known[Pair(e, i)], 200)
           /\ \A j \in 1..(i - 1) : Pair(e, j) = Pair(e, i) => Near(e.sd[i], e.sd[j], 200)
Learn(e) ==
  IF ~(e.audio /\ e.notesKnown) THEN known
  ELSE LET P == {Pair(e, i) : i \in 1..Len(e.sd)}
       IN [p \in DOMAIN known \cup P |-> IF p \in DOMAIN known THEN known[p] ELSE e.sd[CHOOSE i \in 1..Len(e.sd) : Pair(e, i) = p]]

Buf == <<per, go, fresh>>
Step(e) ==
  /\ fine' = IF e.e = "NewFinder" THEN e.fine ELSE fine
  /\ CASE e.e = "Scenario" -> UNCHANGED <<per, go, fresh, bpb, known>>
       [] e.e = "NewBuffer" -> per' = e.per /\ go' = <<>> /\ fresh' = <<>> /\ UNCHANGED <<bpb, known>>
       [] e.e = "ResetBuffer" -> go' = <<>> /\ fresh' = <<>> /\ UNCHANGED <<per, bpb, known>>
       [] e.e = "Push" -> /\ Len(e.go) = per /\ Len(e.fresh) = per
                          /\ go' = go \o e.go /\ fresh' = fresh \o e.fresh /\ UNCHANGED <<per, bpb, known>>
       [] e.e = "Buffered" -> e.n = Len(go) /\ e.ids \in {go, fresh} /\ UNCHANGED <<per, go, fresh, bpb, known>>
       [] e.e = "NewFinder" -> bpb' = 0 /\ UNCHANGED <<per, go, fresh, known>>
       [] e.e = "SetBPB" -> bpb' = e.v /\ UNCHANGED <<per, go, fresh, known>>
       [] e.e = "Find" -> Holds(FindOK(e) /\ NotesOK(e)) /\ known' = Learn(e) /\ UNCHANGED <<per, go, fresh, bpb>>
       [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
