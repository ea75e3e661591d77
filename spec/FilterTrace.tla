------------------------------ MODULE FilterTrace ------------------------------
(* Recorded use of real Filter and FiltFilt objects.                            *)
(*  integer streams: the outputs must be exactly those of the difference        *)
(*    equation (FilterRun), however the stream was divided into calls;          *)
(*  real-valued streams: values are identities (equal number, equal double);    *)
(*    every later pass over the same stream must repeat the first one.          *)
EXTENDS TraceBase, DspOps
VARIABLES flt,    \* [object |-> [a, b, st]] integer filters
          ref,    \* reference outputs of the current real-valued stream
          ffs     \* [object |-> [a, b]] integer zero-phase filters
tv == <<flt, ref, ffs, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TraceInit == l = 1 /\ flt = None /\ ref = <<>> /\ ffs = None
Step(e) ==
  CASE e.e = "Scenario" -> flt' = None /\ ref' = <<>> /\ ffs' = None
    [] e.e = "New" -> /\ e.order = Order(e.b)
                      /\ flt' = Put(flt, e.k, [a |-> e.a, b |-> e.b, st |-> FilterZero(e.b)])
                      /\ UNCHANGED <<ref, ffs>>
    [] e.e = "Refused" -> /\ (Len(e.b) = 0 \/ (Len(e.a) # 0 /\ Len(e.a) # Len(e.b)))
                          /\ UNCHANGED <<flt, ref, ffs>>
    [] e.e = "Process" ->
         LET f == flt[e.k]  r == FilterRun(f.a, f.b, f.st, e.in)
         IN /\ e.out = r.out
            /\ flt' = [flt EXCEPT ![e.k].st = r.st]
            /\ UNCHANGED <<ref, ffs>>
    [] e.e = "Reset" -> flt' = [flt EXCEPT ![e.k].st = FilterZero(flt[e.k].b)] /\ UNCHANGED <<ref, ffs>>
    [] e.e = "Ref" -> ref' = e.out /\ UNCHANGED <<flt, ffs>>
    [] e.e = "Again" -> e.out = SubSeq(ref, e.from + 1, e.from + Len(e.out)) /\ UNCHANGED <<flt, ref, ffs>>
    [] e.e = "NewFF" -> ffs' = Put(ffs, e.k, [a |-> e.a, b |-> e.b]) /\ UNCHANGED <<flt, ref>>
    [] e.e = "FiltFilt" -> /\ e.out = FiltFiltOut(ffs[e.k].a, ffs[e.k].b, e.in)
                           /\ UNCHANGED <<flt, ref, ffs>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
