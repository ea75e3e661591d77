-------------------------------- MODULE HmmImpl --------------------------------
(* The forward-backward recursion over unnormalised weights, checked against the   *)
(* definition: sums of the weights of all state paths.                              *)
EXTENDS DspOps, TLC
CONSTANTS N, T, Vals
VARIABLES p, a, b, alpha, beta
vars == <<p, a, b, alpha, beta>>
S == 1..N
Init == /\ p \in [S -> Vals] /\ a \in [S -> [S -> Vals]] /\ b \in [1..T -> [S -> Vals]]
        /\ alpha = <<[i \in S |-> p[i] * b[1][i]]>> /\ beta = <<[i \in S |-> 1]>>
Forward == /\ Len(alpha) < T
           /\ LET t == Len(alpha) IN alpha' = Append(alpha, [j \in S |-> SumSeq([i \in 1..N |-> alpha[t][i] * a[i][j]]) * b[t + 1][j]])
           /\ UNCHANGED <<p, a, b, beta>>
Backward == /\ Len(alpha) = T /\ Len(beta) < T
            /\ LET t == T - Len(beta) + 1 IN beta' = <<[i \in S |-> SumSeq([j \in 1..N |-> a[i][j] * b[t][j] * beta[1][j]])]>> \o beta
            /\ UNCHANGED <<p, a, b, alpha>>
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars
Done == Len(beta) = T
W(q) == LET f[t \in 0..T] == IF t = 0 THEN 1 ELSE f[t - 1] * b[t][q[t]] * (IF t = 1 THEN p[q[1]] ELSE a[q[t - 1]][q[t]]) IN f[T]
Paths == [1..T -> S]
SumOver(P) == FoldLeft(LAMBDA acc, q : acc + W(q), 0, SetToSeq(P))
Total == SumSeq([i \in 1..N |-> alpha[T][i]])
GammaIsPosterior == Done => \A t \in 1..T : \A i \in S : alpha[t][i] * beta[t][i] = SumOver({q \in Paths : q[t] = i})
XiIsPosterior == Done => \A t \in 1..(T - 1) : \A i, j \in S :
                   alpha[t][i] * a[i][j] * b[t + 1][j] * beta[t + 1][j] = SumOver({q \in Paths : q[t] = i /\ q[t + 1] = j})
SameTotal == Done => \A t \in 1..T : SumSeq([i \in 1..N |-> alpha[t][i] * beta[t][i]]) = Total
=============================================================================
