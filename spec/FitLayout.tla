------------------------------ MODULE FitLayout ------------------------------
(* One fit: the dataset is built, the solver receives start values and bounds  *)
(* slot by slot, evaluates residuals and returns one value per slot, which are  *)
(* distributed to the time stamps.  Values are symbolic (slot numbers).         *)
EXTENDS FitSlots, TLC
CONSTANTS MaxN, Hours, Labels, NP
Rl(k, u, n) == [k |-> k, u |-> u, n |-> n]
Rules == {Rl("const", "", 1), Rl("index", "", 1), Rl("man", "", 1), Rl("num", "", 2), Rl("off", "D", 2), Rl("offman", "D", 1)}
VARIABLES ds, rules, phase, x0, res, out
vars == <<ds, rules, phase, x0, res, out>>
Obs(h, l) == [t |-> h, d |-> h \div 24, w |-> 0, m |-> 0, y |-> 0, lab |-> l]
Init == ds = <<>> /\ rules \in [1..NP -> Rules] /\ phase = "data" /\ x0 = <<>> /\ res = <<>> /\ out = <<>>
Add == /\ phase = "data" /\ Len(ds) < MaxN
       /\ \E h \in Hours, l \in [1..NP -> Labels] :
             /\ ds # <<>> => h >= ds[Len(ds)].t
             /\ ds' = Append(ds, Obs(h, l))
       /\ UNCHANGED <<rules, phase, x0, res, out>>
\* start values: parameter number of every slot (constant start) in slot order
Start == /\ phase = "data" /\ ds # <<>>
         /\ x0' = [s \in 1..NSlots(ds, rules) |-> ParamOf(ds, rules, s)]
         /\ phase' = "solve" /\ UNCHANGED <<ds, rules, res, out>>
\* one residual per observation, depending on the slots of the observation
Eval == /\ phase = "solve" /\ res' = [i \in DOMAIN ds |-> Slots(ds, rules, i)]
        /\ phase' = "done" /\ UNCHANGED <<ds, rules, x0, out>>
Distribute == /\ phase = "done"
              /\ out' = [i \in DOMAIN ds |-> [p \in DOMAIN rules |-> Slot(ds, rules, p, i)]]
              /\ phase' = "out" /\ UNCHANGED <<ds, rules, x0, res>>
Next == Add \/ Start \/ Eval \/ Distribute
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Eval \/ Distribute)

OneEach == phase \in {"done", "out"} => \A i \in DOMAIN ds : Cardinality(res[i]) = NP
SlotsUsed == phase \in {"done", "out"} => UNION {res[i] : i \in DOMAIN ds} = 1..Len(x0)
Sorted == phase # "data" => \A s \in 1..(Len(x0) - 1) : x0[s] <= x0[s + 1]
\* two observations read the same value iff they are in the same group
Shared == phase = "out" => \A p \in DOMAIN rules : \A i, j \in DOMAIN ds :
             (out[i][p] = out[j][p]) = Same(ds, rules[p], p, i, j)
\* the value reported for an observation is one that its residual depends on
Sens == phase = "out" => \A i \in DOMAIN ds : {out[i][p] : p \in DOMAIN rules} = res[i]
Ends == <>(phase = "out" \/ ds = <<>>)
=============================================================================
