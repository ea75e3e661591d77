-------------------------------- MODULE ShareTrace --------------------------------
(* Objects used by different threads.  Several objects are made, called, reset and    *)
(* destroyed in any order by one thread, and for every place in memory it is recorded *)
(* which objects' operations read it and which wrote it, other than under a lock, by  *)
(* an atomic operation or in the guarded making of a static object.  A place that one  *)
(* object's operations write is not touched by another's: so the operations of         *)
(* different objects commute step by step, and threads with objects of their own need   *)
(* no locks.                                                                            *)
EXTENDS TraceBase
VARIABLES objs, places      \* [place |-> [r, w: sets of objects]]
tv == <<objs, places, l>>
SetOf(s) == {s[i] : i \in DOMAIN s}
(* known_findings.txt: the bundled CBLAS notes there, for its error messages only, how it was called *)
Known == {"CBLAS_CallFromC", "RowMajorStrg"}
TraceInit == l = 1 /\ objs = {} /\ places = [i \in {} |-> 0]
At(p) == IF p \in DOMAIN places THEN places[p] ELSE [r |-> {}, w |-> {}]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Free(pl, name) == \/ pl.w = {} \/ Cardinality(pl.r \cup pl.w) <= 1 \/ name \in Known
Step(e) ==
  CASE e.e = "Scenario" -> objs' = {} /\ places' = [i \in {} |-> 0]
    [] e.e = "New" -> Holds(e.o \notin objs) /\ objs' = objs \cup {e.o} /\ UNCHANGED places
    [] e.e \in {"Read", "Write"} ->
         LET by == SetOf(e.by)
             old == At(e.loc)
             new == IF e.e = "Read" THEN [old EXCEPT !.r = @ \cup by] ELSE [old EXCEPT !.w = @ \cup by] IN
         /\ Holds(by # {} /\ by \subseteq objs)
         /\ Holds(Free(new, e.name))
         /\ places' = Put(places, e.loc, new) /\ UNCHANGED objs
    [] e.e = "End" -> Holds(Cardinality(objs) >= 2 /\ e.reads > 0 /\ e.writes > 0) /\ UNCHANGED <<objs, places>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
