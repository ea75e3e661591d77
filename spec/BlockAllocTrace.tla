---------------------------- MODULE BlockAllocTrace ----------------------------
(* Validates recorded histories of real BlockAllocators.  Several allocators    *)
(* may be alive; blocks of all of them must be disjoint.                        *)
EXTENDS TraceBase
Ids == Nat
VARIABLES live,
          held, peak,   \* regions each allocator holds now / held at most so far
          spare    \* set of <<allocator, address, region>> freed and still in memory the allocator holds
B == INSTANCE BlockAlloc
tv == <<live, spare, held, peak, l>>
Zero == [a \in 0..1 |-> 0]
TraceInit == l = 1 /\ B!Init /\ spare = {} /\ held = Zero /\ peak = Zero
Step(e) ==
  CASE e.e = "Scenario" -> live' = B!Empty /\ spare' = {} /\ held' = Zero /\ peak' = Zero
    [] e.e = "Alloc" ->
         /\ B!Allocate(e.id, e.at, e.n, e.tag)
         /\ LET h == held[e.a] + (IF e.grew THEN 1 ELSE 0)
            IN /\ held' = [held EXCEPT ![e.a] = h]
               \* memory grows beyond its peak only when no freed block is at hand
               /\ h > peak[e.a] => ~\E s \in spare : s[1] = e.a
               /\ peak' = [peak EXCEPT ![e.a] = IF h > @ THEN h ELSE @]
         /\ spare' = {s \in spare : s[2] # e.at}
    [] e.e = "Write" -> B!Write(e.id, e.tag) /\ UNCHANGED <<spare, held, peak>>
    [] e.e = "Read" -> B!Read(e.id, e.tag) /\ UNCHANGED <<spare, held, peak>>
    [] e.e = "Free" ->
         /\ B!Free(e.id)
         /\ held' = [held EXCEPT ![e.a] = @ - Len(e.gone)] /\ UNCHANGED peak
         /\ spare' = IF e.region = 0 THEN spare
                     ELSE {s \in spare \cup {<<e.a, live[e.id].at, e.region>>} : \A i \in 1..Len(e.gone) : e.gone[i] # s[3]}
    [] e.e = "FreeNull" -> UNCHANGED <<live, spare, held, peak>>
    [] e.e = "Bulk" -> e.n = e.want /\ e.overlaps = 0 /\ e.corrupt = 0 /\ e.growths <= e.gaveback /\ UNCHANGED <<live, spare, held, peak>>
    [] e.e = "End" -> UNCHANGED <<live, spare, held, peak>>
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
