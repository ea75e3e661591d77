-------------------------------- MODULE PathImpl --------------------------------
(* Most-probable-path decoding as the code performs it: per column the best        *)
(* predecessor of each state is stored, and the path is read back from the best    *)
(* final state.  Checked to score as much as the best of all paths.                *)
EXTENDS DspOps, TLC
CONSTANTS N, T, Vals, Steep
VARIABLES tab, delta, psi, path, t
vars == <<tab, delta, psi, path, t>>
Cost(i, j) == Steep * Abs(i - j)
ArgMax(s) == CHOOSE i \in 1..Len(s) : s[i] = MaxSeq(s) /\ \A j \in 1..(i - 1) : s[j] < s[i]
Init == /\ tab \in [1..T -> [1..N -> Vals]]
        /\ delta = <<tab[1]>> /\ psi = <<[j \in 1..N |-> 0]>> /\ path = <<>> /\ t = 1
From(j) == [i \in 1..N |-> delta[t][i] - Cost(i, j)]
Column == /\ t < T
          /\ delta' = Append(delta, [j \in 1..N |-> MaxSeq(From(j)) + tab[t + 1][j]])
          /\ psi' = Append(psi, [j \in 1..N |-> ArgMax(From(j))])
          /\ t' = t + 1 /\ UNCHANGED <<tab, path>>
Final == t = T /\ path = <<>> /\ path' = <<ArgMax(delta[T])>> /\ UNCHANGED <<tab, delta, psi, t>>
Back == /\ path # <<>> /\ Len(path) < T
        /\ path' = <<psi[T - Len(path) + 1][path[1]]>> \o path /\ UNCHANGED <<tab, delta, psi, t>>
Next == Column \/ Final \/ Back
Spec == Init /\ [][Next]_vars
Score(p) == SumSeq([k \in 1..Len(p) |-> tab[k][p[k]] - (IF k = 1 THEN 0 ELSE Cost(p[k - 1], p[k]))])
Paths(k) == [1..k -> 1..N]
DeltaIsBest == \A k \in 1..t : k = t => \A j \in 1..N : delta[k][j] = CHOOSE m \in {Score(p) : p \in {q \in Paths(k) : q[k] = j}} :
                                                 \A p \in {q \in Paths(k) : q[k] = j} : Score(p) <= m
PathIsBest == Len(path) = T => \A p \in Paths(T) : Score(p) <= Score(path)
=============================================================================
