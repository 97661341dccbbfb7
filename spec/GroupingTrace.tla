---------------------------- MODULE GroupingTrace ----------------------------
(* Judges what a real Fits object made of a dataset.  Record x:                *)
(*  ds, rules            the dataset (sorted by time) and the declared rules    *)
(*  dyn[p][i]            group label of observation i (param_dyn_dict, coded)    *)
(*  rows[r]              observations of fit-group r (unmasked entries of data)  *)
(*  inc, wt[r][c]        the same for the incidence angles and the weights       *)
(*  art[r]               number of masked entries of row r                       *)
(*  idx                  the index property (hours), width = columns             *)
(*  dfrows               rows of param_dyn_df, coded                             *)
EXTENDS GroupRules, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Say(c) == PrintT(<<"FAIL", k, c>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
IsNum(r) == r.k \in {"num", "numman"}
\* the observed labels stand for the bins of "num" rules, where only NumLaw is prescribed
Grp(x, i, j) == \A p \in DOMAIN x.rules : x.dyn[p][i] = x.dyn[p][j]
Uniq(s) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : \A j \in 1..(i - 1) : s[j] # s[i])
Dedup(s) == [i \in DOMAIN Uniq(s) |-> s[Uniq(s)[i]]]

Judge(x) ==
  LET ds == x.ds D == DOMAIN ds P == DOMAIN x.rules
      rowof(i) == CHOOSE r \in DOMAIN x.rows : i \in Set(x.rows[r])
      all == Cat(x.rows)
  IN /\ Check(\A p \in P : DOMAIN x.dyn[p] = D, "a parameter has not one group label per observation")
     /\ \A p \in P : CASE x.rules[p].k = "num" -> Check(NumLaw(ds, x.rules[p].n, x.dyn[p]), "bins of N consecutive time stamps")
                       [] x.rules[p].k = "numman" -> Check(\A i, j \in D :
                              (x.dyn[p][i] = x.dyn[p][j]) = Same(ds, x.rules[p], p, i, j), "bins combined with labels")
                       [] OTHER -> Check(\A i, j \in D : (x.dyn[p][i] = x.dyn[p][j]) = Same(ds, x.rules[p], p, i, j),
                                          "group of a parameter: " \o x.rules[p].k)
     /\ Check(Len(all) = Len(ds) /\ Set(all) = D, "the fit-groups do not hold every observation exactly once")
     /\ Check(\A r \in DOMAIN x.rows : x.rows[r] # <<>>, "an empty fit-group")
     /\ IF Set(all) = D
          THEN Check(\A i, j \in D : (rowof(i) = rowof(j)) = Grp(x, i, j), "a fit-group does not match the groups of all parameters")
          ELSE TRUE
     /\ Check(x.inc = x.rows, "incidence angles and data hold different observations")
     /\ Check(x.wt = x.rows, "weights and data hold different observations")
     /\ Check(\A r \in DOMAIN x.rows : x.art[r] = x.width - Len(x.rows[r]), "mask")
     /\ Check(x.width = Cardinality(UNION {{c \in 1..Len(ds) : c <= Len(x.rows[r])} : r \in DOMAIN x.rows}), "width of the arrays")
     /\ Check(Len(x.idx) = Len(Cat([r \in DOMAIN x.rows |-> Dedup([c \in DOMAIN x.rows[r] |-> ds[x.rows[r][c]].t])]))
              /\ x.idx = Cat([r \in DOMAIN x.rows |-> Dedup([c \in DOMAIN x.rows[r] |-> ds[x.rows[r][c]].t])]),
              "index is not the time stamps of the fit-groups")
     /\ Check(\A r \in DOMAIN x.rows : r \in DOMAIN x.dfrows /\ x.dfrows[r] = [p \in P |-> x.dyn[p][x.rows[r][1]]],
              "param_dyn_df")
     /\ Check(Len(x.dfrows) = Len(x.rows), "number of fit-groups in param_dyn_df")
     /\ Check(x.exact, "values of the arrays or artificial entries")
Init == k = 1
Next == /\ k <= Len(R) /\ k' = k + 1 /\ Judge(R[k])
        /\ IF k = Len(R) THEN PrintT(<<"JUDGED", k>>) ELSE TRUE
Spec == Init /\ [][Next]_k
=============================================================================
