------------------------------ MODULE BlockAlloc ------------------------------
(* What users of BlockAllocator rely on (C05).  Addresses are cells of an       *)
(* abstract memory; a block covers the cells from its address on.               *)
EXTENDS Integers, FiniteSets

CONSTANTS Ids
VARIABLES
  live      \* function from live block ids to [at |-> address, n |-> size, tag |-> contents]
vars == <<live>>

Empty == [i \in {} |-> 0]
Init == live = Empty

Apart(a, n, b, m) == a + n <= b \/ b + m <= a
Allocate(id, at, n, tag) ==
  /\ id \notin DOMAIN live
  /\ \A i \in DOMAIN live : Apart(at, n, live[i].at, live[i].n)
  /\ live' = [i \in DOMAIN live \cup {id} |-> IF i = id THEN [at |-> at, n |-> n, tag |-> tag] ELSE live[i]]
Write(id, tag) == id \in DOMAIN live /\ live' = [live EXCEPT ![id].tag = tag]
Read(id, tag) == id \in DOMAIN live /\ live[id].tag = tag /\ UNCHANGED live
Free(id) == id \in DOMAIN live /\ live' = [i \in DOMAIN live \ {id} |-> live[i]]

Disjoint == \A i, j \in DOMAIN live : i # j => Apart(live[i].at, live[i].n, live[j].at, live[j].n)
=============================================================================
