------------------------------ MODULE MetricPair ------------------------------
(* Which values a metric of a fit compares.  Observation i has its measurements, *)
(* its model values (depending on the slots it uses) and, for every parameter,    *)
(* the value of its slot.  The model lists its rows group by group; the pairing    *)
(* must undo that.                                                                 *)
EXTENDS FitLayout, Json
CONSTANT EmitMod
\* rows of the model: group by group, groups in order of first appearance
First(i) == CHOOSE j \in DOMAIN ds : /\ SameGroup(ds, rules, i, j)
                                     /\ \A k \in DOMAIN ds : SameGroup(ds, rules, i, k) => j <= k
Before(i, j) == First(i) < First(j) \/ (First(i) = First(j) /\ i < j)
RowOf(i) == 1 + Cardinality({j \in DOMAIN ds : Before(j, i)})
Model == [r \in DOMAIN ds |-> LET i == CHOOSE x \in DOMAIN ds : RowOf(x) = r IN <<i, Slots(ds, rules, i)>>]
\* pairing by position of the observation
Paired == [i \in DOMAIN ds |-> Model[RowOf(i)]]
Rows == phase = "out" => {RowOf(i) : i \in DOMAIN ds} = DOMAIN ds
Right == phase = "out" => \A i \in DOMAIN ds : Paired[i] = <<i, res[i]>>
\* a table with one row per time stamp is a pairing only if the slots agree within the stamp
PerStamp == phase = "out" => \A p \in DOMAIN rules : "man" \notin {rules[p].k} /\ rules[p].k # "offman" =>
              \A i, j \in DOMAIN ds : ds[i].t = ds[j].t => out[i][p] = out[j][p]
Emit == phase = "out" /\ RandomElement(1..EmitMod) = 1 => PrintT(<<"PAIR", ToJson([ds |-> ds, rules |-> rules, out |-> out])>>)
===============================================================================
