------------------------------ MODULE LifetimeImpl ------------------------------
(* How the processing classes own memory.  An object is constructed member by member *)
(* and may be rejected half way; it is initialised, and initialised again for other  *)
(* settings; calls take scratch memory, replace a member whose size no longer fits,  *)
(* and may return early; it is reset and destroyed.  Memory is got one at a time     *)
(* ("new") or as an array ("new[]"), or by the C library, and goes back by the same  *)
(* means.  Checked: every live block is held by exactly one holder, nothing is given *)
(* back twice or by the wrong means, a destroyed object holds nothing, and what an   *)
(* object holds is bounded by its settings, whatever the number of calls.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objects, Members, Settings, MaxBlocks, MaxId, Disciplined
VARIABLES heap,     \* live blocks: [id |-> kind]
          objs,     \* [object |-> [phase, members: [member |-> block or 0], scratch: set of blocks, set]]
          next, bad
vars == <<heap, objs, next, bad>>
Kinds == {"new", "array", "c"}
KindOf(m) == CASE m = 1 -> "new" [] m = 2 -> "array" [] OTHER -> "c"
Nothing == [m \in Members |-> 0]
Gone == [phase |-> "gone", members |-> Nothing, scratch |-> {}, set |-> 0]
Init == heap = [b \in {} |-> "new"] /\ objs = [o \in Objects |-> Gone] /\ next = 1 /\ bad = FALSE
Plus(h, b, k) == [x \in DOMAIN h \cup {b} |-> IF x = b THEN k ELSE h[x]]
Minus(h, bs) == [x \in DOMAIN h \ bs |-> h[x]]
Wrong(bs, kind(_)) == \E b \in bs : b \notin DOMAIN heap \/ heap[b] # kind(b)
Held(o) == {objs[o].members[m] : m \in Members} \ {0}
Missing(o) == {m \in Members : objs[o].members[m] = 0}
MemberKind(o, b) == KindOf(CHOOSE m \in Members : objs[o].members[m] = b)
(* construction, one member after the other *)
Begin(o) == /\ objs[o].phase = "gone" /\ objs' = [objs EXCEPT ![o].phase = "making"] /\ UNCHANGED <<heap, next, bad>>
Acquire(o) == /\ objs[o].phase = "making" /\ Missing(o) # {} /\ Cardinality(DOMAIN heap) < MaxBlocks
              /\ LET m == CHOOSE k \in Missing(o) : \A j \in Missing(o) : k <= j IN
                 /\ heap' = Plus(heap, next, KindOf(m)) /\ objs' = [objs EXCEPT ![o].members[m] = next] /\ next' = next + 1
              /\ UNCHANGED bad
Ready(o, s) == objs[o].phase = "making" /\ Missing(o) = {} /\ objs' = [objs EXCEPT ![o].phase = "ready", ![o].set = s] /\ UNCHANGED <<heap, next, bad>>
ReleaseAll(o) == /\ heap' = Minus(heap, Held(o) \cup objs[o].scratch)
                 /\ bad' = (bad \/ Wrong(Held(o), LAMBDA b : MemberKind(o, b)) \/ Wrong(objs[o].scratch, LAMBDA b : "array"))
                 /\ objs' = [objs EXCEPT ![o] = Gone] /\ UNCHANGED next
Reject(o) == /\ objs[o].phase = "making" /\ Held(o) # {}
             /\ IF "reject" \in Disciplined THEN ReleaseAll(o)
                ELSE objs' = [objs EXCEPT ![o] = Gone] /\ UNCHANGED <<heap, next, bad>>
(* initialised again: the members for the old settings go first *)
Initialise(o, s) == /\ objs[o].phase = "ready"
                    /\ LET old == Held(o) IN
                       IF "initialise" \in Disciplined
                       THEN /\ heap' = Minus(heap, old) /\ bad' = (bad \/ Wrong(old, LAMBDA b : MemberKind(o, b)))
                       ELSE UNCHANGED <<heap, bad>>
                    /\ objs' = [objs EXCEPT ![o].members = Nothing, ![o].phase = "making", ![o].set = s] /\ UNCHANGED next
(* a call: scratch, perhaps a member replaced, the result, scratch given back *)
Call(o) == /\ objs[o].phase = "ready" /\ Cardinality(DOMAIN heap) < MaxBlocks
           /\ heap' = Plus(heap, next, "array") /\ objs' = [objs EXCEPT ![o].phase = "called", ![o].scratch = {next}] /\ next' = next + 1 /\ UNCHANGED bad
Replace(o, m, s) == /\ objs[o].phase = "called" /\ s # objs[o].set /\ KindOf(m) = "array"
                    /\ LET b == objs[o].members[m]  h == Minus(heap, {b}) IN
                       /\ heap' = Plus(h, next, KindOf(m)) /\ bad' = (bad \/ Wrong({b}, LAMBDA x : KindOf(m)))
                       /\ objs' = [objs EXCEPT ![o].members[m] = next, ![o].set = s] /\ next' = next + 1
Return(o, early) == /\ objs[o].phase = "called"
                    /\ IF early /\ "early" \notin Disciplined THEN UNCHANGED <<heap, bad>>
                       ELSE /\ heap' = Minus(heap, objs[o].scratch) /\ bad' = (bad \/ Wrong(objs[o].scratch, LAMBDA b : "array"))
                    /\ objs' = [objs EXCEPT ![o].scratch = {}, ![o].phase = "ready"] /\ UNCHANGED next
Destroy(o) == objs[o].phase = "ready" /\ ReleaseAll(o)
Next == \E o \in Objects : \/ Begin(o) \/ Acquire(o) \/ Reject(o) \/ Call(o) \/ Destroy(o)
                           \/ \E s \in Settings : Ready(o, s) \/ Initialise(o, s) \/ \E m \in Members : Replace(o, m, s)
                           \/ \E early \in BOOLEAN : Return(o, early)
Spec == Init /\ [][Next]_vars
(* block numbers only grow: explored up to a number *)
Few == next <= MaxId
OneHolder == \A b \in DOMAIN heap : Cardinality({o \in Objects : b \in Held(o) \cup objs[o].scratch}) = 1
Live == \A o \in Objects : Held(o) \cup objs[o].scratch \subseteq DOMAIN heap
NothingWrong == ~bad
Bounded == Cardinality(DOMAIN heap) <= Cardinality(Objects) * (Cardinality(Members) + 1)
NothingAfterAll == (\A o \in Objects : objs[o].phase = "gone") => DOMAIN heap = {}
================================================================================
