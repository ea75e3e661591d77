------------------------------ MODULE DecimatorImpl ------------------------------
(* Block-wise decimation: a cascade of stages, each a transposed direct-form     *)
(* filter whose delay line is carried from block to block, followed by dropping  *)
(* samples.  Exhaustively compared, over small integer filters, with filtering   *)
(* the whole stream by the difference equation and keeping every m-th sample.    *)
EXTENDS DspOps
CONSTANTS Filters, Stages, Values, Blocks, MaxIn
VARIABLES f, stages, line, whole, got, want
vars == <<f, stages, line, whole, got, want>>
N == Len(f.b) - 1
(* one sample through the transposed form with delay line o                      *)
TStep(o, x) ==
  LET y == x * f.b[1] + (IF N = 0 THEN 0 ELSE o[1])
  IN [y |-> y, o |-> [i \in 1..N |-> x * f.b[i + 1] - y * f.a[i + 1] + (IF i < N THEN o[i + 1] ELSE 0)]]
TRun(o, xs) == FoldLeft(LAMBDA acc, x : LET r == TStep(acc.o, x) IN [o |-> r.o, out |-> Append(acc.out, r.y)],
                        [o |-> o, out |-> <<>>], xs)
Keep(xs) == [i \in 1..CeilDiv(Len(xs), 2) |-> xs[2 * i - 1]]
BlockOut(ls, xs) == \* result and delay lines of the whole cascade
  LET st[k \in 0..stages] ==
        IF k = 0 THEN [v |-> xs, ls |-> ls]
        ELSE LET r == TRun(st[k - 1].ls[k], st[k - 1].v)
             IN [v |-> Keep(r.out), ls |-> [st[k - 1].ls EXCEPT ![k] = r.o]]
  IN st[stages]
WholeOut(xs) ==
  LET st[k \in 0..stages] == IF k = 0 THEN xs ELSE Keep(FilterRun(f.a, f.b, FilterZero(f.b), st[k - 1]).out)
  IN st[stages]
Factor == 2 ^ stages
SeqsOf(n) == [1..n -> Values]

Init == /\ f \in Filters /\ stages \in Stages
        /\ line = [k \in 1..stages |-> Zeros(N)]
        /\ whole = <<>> /\ got = <<>> /\ want = <<>>
Block(xs) ==
  LET r == BlockOut(line, xs)
  IN /\ Len(whole) + Len(xs) <= MaxIn
     /\ whole' = whole \o xs /\ got' = got \o r.v /\ line' = r.ls
     /\ want' = WholeOut(whole \o xs)
     /\ UNCHANGED <<f, stages>>
Reset == /\ Len(whole) > 0 /\ whole' = <<>> /\ got' = <<>> /\ want' = <<>>
         /\ line' = [k \in 1..stages |-> Zeros(N)] /\ UNCHANGED <<f, stages>>
Next == Reset \/ \E n \in Blocks : n % Factor = 0 /\ \E xs \in SeqsOf(n) : Block(xs)
Spec == Init /\ [][Next]_vars
Same == got = want
MCFilters == {[b |-> <<1>>, a |-> <<1>>], [b |-> <<1, 2>>, a |-> <<1, -1>>], [b |-> <<1, 1, 1>>, a |-> <<1, 0, 1>>],
              [b |-> <<2, -1, 0, 1>>, a |-> <<1, 1, 0, -1>>]}
MCValues == {-1, 0, 1}
=============================================================================
