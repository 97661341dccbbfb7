-------------------------------- MODULE FitRun --------------------------------
(* A fit: bounded descent from the declared start values, repeated by one object.  *)
(* Costs and the choice of trial points are arbitrary but fixed (the solver is      *)
(* deterministic); points are vectors of M slots with values 0..K.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, M, C, Runs
Points == [1..M -> 0..K]
Le(a, b) == \A s \in 1..M : a[s] <= b[s]
VARIABLES cost, pol, lo, hi, start, cur, tried, run, results, phase
vars == <<cost, pol, lo, hi, start, cur, tried, run, results, phase>>
fixed == <<cost, pol, lo, hi, start>>
Box == {p \in Points : Le(lo, p) /\ Le(p, hi)}
Init == /\ cost \in [Points -> 0..C] /\ pol \in [Points -> Points]
        /\ lo \in Points /\ hi \in Points /\ Le(lo, hi) /\ start \in Box
        /\ \A p \in Points : pol[p] \in Box
        /\ cur = start /\ tried = {start} /\ run = 1 /\ results = <<>> /\ phase = "run"
\* the trial point of the policy is accepted iff it lowers the cost, otherwise the run ends
Accept == /\ phase = "run" /\ cost[pol[cur]] < cost[cur]
          /\ cur' = pol[cur] /\ tried' = tried \cup {pol[cur]} /\ UNCHANGED <<run, results, phase>> /\ UNCHANGED fixed
Stop == /\ phase = "run" /\ cost[pol[cur]] >= cost[cur]
        /\ tried' = tried \cup {pol[cur]} /\ results' = Append(results, cur) /\ phase' = "done"
        /\ UNCHANGED <<cur, run>> /\ UNCHANGED fixed
\* every run begins at the declared start values, whatever happened before
Again == /\ phase = "done" /\ run < Runs /\ run' = run + 1 /\ cur' = start /\ tried' = {start} /\ phase' = "run"
         /\ UNCHANGED results /\ UNCHANGED fixed
Next == Accept \/ Stop \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside == tried \subseteq Box
NotWorse == cost[cur] <= cost[start] /\ \A r \in DOMAIN results : cost[results[r]] <= cost[start]
Same == \A r, q \in DOMAIN results : results[r] = results[q]
BestAccepted == phase = "done" => cur = results[Len(results)]
\* data that the start values reproduce exactly are reproduced by the result
Exact == cost[start] = 0 => \A r \in DOMAIN results : cost[results[r]] = 0
Ends == <>(phase = "done" /\ run = Runs)
===============================================================================
