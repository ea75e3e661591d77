------------------------------ MODULE HostileImpl ------------------------------
(* What becomes of a bad value (one that is not a number, infinite, or so large that    *)
(* nothing can be added to it).  It spoils whatever it is combined with, also when it    *)
(* is multiplied by zero; only assignment gets rid of it.  An object has memory that its  *)
(* calls carry on (a filter's, say) and working memory, which one kind of call writes in   *)
(* part (a forward cosine transform: every other cell) and another in full (its inverse).   *)
(* Checked: a result is spoilt only by the values of its own call or, for objects that       *)
(* remember, by those since the start or the last reset; other objects' results never.        *)
EXTENDS Integers, FiniteSets
CONSTANTS Objects, Cells,
          Clears,      \* the partial call clears the cells it does not write
          Reset0       \* "assigns" zero or "scales" by zero
VARIABLES state, work, due, last
vars == <<state, work, due, last>>
Values == {"good", "bad"}
Mix(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE "good"
AnyBad(f) == IF \E c \in DOMAIN f : f[c] = "bad" THEN "bad" ELSE "good"
Part == {c \in Cells : c % 2 = 1}
Init == /\ state = [o \in Objects |-> "good"] /\ work = [o \in Objects |-> [c \in Cells |-> "good"]]
        /\ due = [o \in Objects |-> FALSE] /\ last = [o |-> 0, kind |-> "none", out |-> "good", in |-> "good", due |-> FALSE]
Said(o, k, out, in) == last' = [o |-> o, kind |-> k, out |-> out, in |-> in, due |-> due[o]]
(* inputs are sequences of values, one for each cell that is written *)
Forward(o, in) == LET w == [c \in Cells |-> IF c \in Part THEN in[c] ELSE IF Clears THEN "good" ELSE work[o][c]] IN
                  work' = [work EXCEPT ![o] = w] /\ Said(o, "local", AnyBad(w), AnyBad(in)) /\ UNCHANGED <<state, due>>
Inverse(o, in) == work' = [work EXCEPT ![o] = in] /\ Said(o, "local", AnyBad(in), AnyBad(in)) /\ UNCHANGED <<state, due>>
Filter(o, x) == /\ state' = [state EXCEPT ![o] = Mix(@, x)] /\ due' = [due EXCEPT ![o] = @ \/ x = "bad"]
                /\ Said(o, "remembers", Mix(state[o], x), x) /\ UNCHANGED work
Reset(o) == /\ state' = [state EXCEPT ![o] = IF Reset0 = "assigns" THEN "good" ELSE Mix(@, "good")]
            /\ due' = [due EXCEPT ![o] = FALSE] /\ Said(o, "reset", "good", "good") /\ UNCHANGED work
Next == \E o \in Objects : \/ \E in \in [Part -> Values] : Forward(o, in)
                           \/ \E in \in [Cells -> Values] : Inverse(o, in)
                           \/ \E x \in Values : Filter(o, x)
                           \/ Reset(o)
Spec == Init /\ [][Next]_vars
NoLastingDamage == last.out = "bad" => (last.in = "bad" \/ (last.kind = "remembers" /\ last.due))
StateClean == \A o \in Objects : state[o] = "bad" => due[o]
================================================================================
