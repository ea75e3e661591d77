------------------------------- MODULE MedianTrace -------------------------------
(* Recorded use of real MedianFilter objects (double, float and int elements).   *)
(* Values are integers; +-infinity are +-2000000002; NaN arrives as "nan".       *)
EXTENDS TraceBase, DspOps
VARIABLES obj  \* [object |-> [size, p (quarter percents), hist (last size values)]]
tv == <<obj, l>>
None == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Rank(size, p) == MaxI(0, MinI(size - 1, (size * p) \div 400))
TraceInit == l = 1 /\ obj = None
Pushed(o, v) == [o EXCEPT !.hist = Append(Tail(@), v)]
StaticOut(size, in) ==
  LET at(i) == IF i \in 1..Len(in) THEN in[i] ELSE 0
  IN [k \in 1..Len(in) |-> OrderStat([j \in 1..size |-> at(k + (size \div 2) - size + j)], Rank(size, 200))]
Step(e) ==
  CASE e.e = "Scenario" -> obj' = None
    [] e.e = "New" -> e.got = e.size /\ obj' = Put(obj, e.k, [size |-> e.size, p |-> e.p, hist |-> Zeros(e.size)])
    [] e.e = "Push" -> obj' = [obj EXCEPT ![e.k] = Pushed(@, e.v)]
    [] e.e = "PushNaN" -> obj' = [obj EXCEPT ![e.k] = Pushed(@, 0)]
    [] e.e = "Get" -> LET o == obj[e.k] IN e.v = OrderStat(o.hist, Rank(o.size, o.p)) /\ UNCHANGED obj
    [] e.e = "GetAt" -> LET o == obj[e.k] IN e.v = OrderStat(o.hist, Rank(o.size, e.p)) /\ UNCHANGED obj
    [] e.e = "SetPercentile" -> obj' = [obj EXCEPT ![e.k].p = e.p]
    [] e.e = "Reset" -> obj' = [obj EXCEPT ![e.k].hist = Zeros(obj[e.k].size)]
    [] e.e = "Static" -> e.out = StaticOut(e.size, e.in) /\ UNCHANGED obj
    [] OTHER -> FALSE
TraceNext == More /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
