------------------------------ MODULE InstanceImpl ------------------------------
(* How the processing classes keep objects apart: each object has its own state,    *)
(* set by construction and reset; scratch memory is garbage when allocated and       *)
(* is written before it is read, over the whole length of the object's settings;     *)
(* tables are computed from the object's own settings.  Checked: what a call returns *)
(* is the function of settings, inputs since the start or reset, and nothing else.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Objects, Settings, Inputs, MaxHist, Garbage
VARIABLES objs, last
vars == <<objs, last>>
None == [alive |-> FALSE]
Table(s) == [i \in 1..s |-> 3 * i + s]                         \* a window or filter of the settings
F(s, state, x) == (2 * state + x + s) % 7                      \* what is carried over
RECURSIVE StateAfter(_, _)
StateAfter(s, h) == IF h = << >> THEN 0 ELSE F(s, StateAfter(s, SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Ref(s, h) == LET x == h[Len(h)] IN Sum([i \in 1..s |-> Table(s)[i] * x], s) + 100 * StateAfter(s, SubSeq(h, 1, Len(h) - 1))
Init == objs = [o \in Objects |-> None] /\ last = << >>
New(o, s, g) == /\ ~objs[o].alive
                /\ objs' = [objs EXCEPT ![o] = [alive |-> TRUE, set |-> s, table |-> Table(s), state |-> 0, scratch |-> [i \in 1..s |-> g], hist |-> << >>]]
                /\ last' = << >>
Call(o, x) == LET b == objs[o] IN
              /\ b.alive /\ Len(b.hist) < MaxHist
              /\ LET sc == [i \in 1..b.set |-> b.table[i] * x]  h == Append(b.hist, x) IN
                 /\ objs' = [objs EXCEPT ![o].scratch = sc, ![o].state = F(b.set, b.state, x), ![o].hist = h]
                 /\ last' = <<b.set, h, Sum(sc, b.set) + 100 * b.state>>
Reset(o) == objs[o].alive /\ objs' = [objs EXCEPT ![o].state = 0, ![o].hist = << >>] /\ last' = << >>
Delete(o) == objs[o].alive /\ objs' = [objs EXCEPT ![o] = None] /\ last' = << >>
Next == \E o \in Objects : \/ \E s \in Settings, g \in Garbage : New(o, s, g)
                           \/ \E x \in Inputs : Call(o, x)
                           \/ Reset(o) \/ Delete(o)
Spec == Init /\ [][Next]_vars
FunctionOfHistory == last # << >> => last[3] = Ref(last[1], last[2])
================================================================================
