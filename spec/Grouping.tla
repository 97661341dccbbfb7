------------------------------ MODULE Grouping ------------------------------
(* A dataset is built observation by observation; the rules of the fitted     *)
(* parameters are fixed at the start.  The laws of the grouping and of the     *)
(* layout of the solver vector are checked for every dataset that is built.    *)
EXTENDS GroupRules, TLC, Json

CONSTANTS MaxN, Hours, Labels, NP, Emitting
Rl(k, u, n) == [k |-> k, u |-> u, n |-> n]
Rules == {Rl("const", "", 1), Rl("index", "", 1), Rl("man", "", 1), Rl("num", "", 1), Rl("num", "", 2),
          Rl("num", "", 3), Rl("off", "D", 1), Rl("off", "D", 2), Rl("off", "M", 1), Rl("off", "W", 2),
          Rl("offman", "D", 2), Rl("numman", "", 2)}
VARIABLES ds, rules, fin
vars == <<ds, rules, fin>>

\* a small artificial calendar: 24 h days, 7 d weeks, 12 d months, 36 d years
Obs(h, l) == [t |-> h, d |-> h \div 24, w |-> (h \div 24) \div 7, m |-> (h \div 24) \div 12,
              y |-> (h \div 24) \div 36, lab |-> l]
Init == ds = <<>> /\ rules \in [1..NP -> Rules] /\ fin = FALSE
Add == \E h \in Hours, l \in [1..NP -> Labels] :
         /\ ~fin /\ Len(ds) < MaxN
         /\ ds # <<>> => h >= ds[Len(ds)].t
         /\ ds' = Append(ds, Obs(h, l)) /\ UNCHANGED <<rules, fin>>
Stop == /\ ~fin /\ ds # <<>> /\ fin' = TRUE /\ UNCHANGED <<ds, rules>>
        /\ IF Emitting THEN PrintT(<<"BEH", ToJson([hours |-> [i \in DOMAIN ds |-> ds[i].t],
                                                    labs |-> [i \in DOMAIN ds |-> ds[i].lab],
                                                    rules |-> rules])>>) ELSE TRUE
Next == Add \/ Stop
Spec == Init /\ [][Next]_vars

P == DOMAIN rules
D == DOMAIN ds
Equiv == \A p \in P : /\ \A i \in D : Same(ds, rules[p], p, i, i)
                      /\ \A i, j \in D : Same(ds, rules[p], p, i, j) = Same(ds, rules[p], p, j, i)
                      /\ \A i, j, k \in D : Same(ds, rules[p], p, i, j) /\ Same(ds, rules[p], p, j, k)
                                             => Same(ds, rules[p], p, i, k)
\* equal time stamps are separated by labels only
Stamp == \A p \in P : \A i, j \in D : ds[i].t = ds[j].t /\ ds[i].lab[p] = ds[j].lab[p] =>
                        Same(ds, rules[p], p, i, j)
Bins == \A p \in P : rules[p].k = "num" /\ ds # <<>> => NumLaw(ds, rules[p].n, [i \in D |-> Bin(ds, i, rules[p].n)])
\* offset intervals are convex in time
Convex == \A p \in P : rules[p].k \in {"off", "num", "index", "const"} =>
             \A i, j, k \in D : i < j /\ j < k /\ Same(ds, rules[p], p, i, k) => Same(ds, rules[p], p, i, j)
\* the slots of a parameter: 1..NGroups, first appearances in order, all used
Slots == \A p \in P : ds # <<>> =>
           /\ {GroupNo(ds, rules[p], p, i) : i \in D} = 1..NGroups(ds, rules[p], p)
           /\ \A i, j \in D : (GroupNo(ds, rules[p], p, i) = GroupNo(ds, rules[p], p, j)) = Same(ds, rules[p], p, i, j)
           /\ \A i \in D : \E j \in 1..i : GroupNo(ds, rules[p], p, j) = GroupNo(ds, rules[p], p, i)
                              /\ \A k \in 1..(j - 1) : GroupNo(ds, rules[p], p, k) < GroupNo(ds, rules[p], p, j)
\* a later observation never changes how earlier ones are grouped (except for "num" bins)
Extend == [][\A p \in P : rules[p].k \notin {"num", "numman"} => \A i, j \in D :
               Same(ds, rules[p], p, i, j) = Same(ds', rules[p], p, i, j)]_vars
=============================================================================
