--------------------------- MODULE FitLayoutTrace ---------------------------
(* Judges one recorded call of performfit.  Record x (values are coded):       *)
(*  ds, rules, interp[p]                                                        *)
(*  aux[p], col[p][i]     start values from a column (integers), scale L        *)
(*  start[p], lo[p], hi[p] declared codes (lo/hi: one entry or one per group)   *)
(*  x0, lob, hib          what the solver got, per slot (aux: value * L)        *)
(*  res[k]                residual k: observation, slots it depends on          *)
(*  jac[k]                the same for the rows of the Jacobian                  *)
(*  dict[p]               codes of the returned values                           *)
(*  df[r]                 row of res_df: time, slot per parameter                *)
(*  calc[r]               row of calc_model: observation, value as expected      *)
(*  tab[g][m], size       values for size[1] parameter sets at size[2] angles:   *)
(*                        the set and the angle each of them belongs to          *)
EXTENDS FitSlots, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Say(c) == PrintT(<<"FAIL", k, c>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)

Judge(x) ==
  LET ds == x.ds D == DOMAIN ds rules == x.rules P == DOMAIN rules
      fst == TLCEval([p \in P |-> TLCEval([i \in D |-> FirstOf(ds, rules[p], p, i)])])
      ngr == TLCEval([p \in P |-> Cardinality(Set(fst[p]))])
      off == TLCEval([p \in P |-> SumOf(ngr, 1..(p - 1))])
      N == SumOf(ngr, P)
      plain == {p \in P : ~x.interp[p]}
      pof == TLCEval([s \in 1..N |-> CHOOSE p \in P : s > off[p] /\ s <= off[p] + ngr[p]])
      slot == TLCEval([p \in P |-> TLCEval([i \in D |-> off[p] + Cardinality({j \in Set(fst[p]) : j <= fst[p][i]})])])
      stamps == TLCEval(Stamps(ds))
      want(i) == {slot[p][i] : p \in plain}
      decl(b, s) == IF Len(b[pof[s]]) = 1 THEN b[pof[s]][1] ELSE b[pof[s]][s - off[pof[s]]]
      dep(e) == {s \in Set(e) : pof[s] \in plain}
  IN IF Len(x.x0) # N \/ Len(x.lob) # N \/ Len(x.hib) # N THEN Say("number of values to be fitted")
     ELSE /\ Check(\A s \in 1..N : IF x.aux[pof[s]]
                       THEN LET m == {i \in D : slot[pof[s]][i] = s} IN
                            x.x0[s] * Cardinality(m) = x.L * SumOf(x.col[pof[s]], m)
                       ELSE x.x0[s] = x.start[pof[s]], "start values")
          /\ Check(\A s \in 1..N : x.lob[s] = decl(x.lo, s) /\ x.hib[s] = decl(x.hi, s), "bounds")
          /\ Check(Len(x.res) = Len(ds) /\ {x.res[j].obs : j \in DOMAIN x.res} = D, "the residuals do not hold every observation exactly once")
          /\ Check(\A j \in DOMAIN x.res : x.res[j].ok, "value of a residual")
          /\ Check(\A j \in DOMAIN x.res : x.res[j].obs \in D => dep(x.res[j].dep) = want(x.res[j].obs), "values that a residual depends on")
          /\ Check(Len(x.jac) = Len(x.res) /\ \A j \in DOMAIN x.jac : dep(x.jac[j]) = dep(x.res[j].dep), "pattern of the Jacobian")
          /\ Check(\A p \in P : x.dict[p] = [g \in 1..ngr[p] |-> off[p] + g], "res_dict")
          /\ Check(Len(x.df) = Cardinality(stamps) /\ {x.df[r].t : r \in DOMAIN x.df} = stamps, "time stamps of res_df")
          /\ Check(\A r \in DOMAIN x.df : \A p \in plain : \E i \in D : ds[i].t = x.df[r].t /\ slot[p][i] = x.df[r].s[p], "values of res_df")
          /\ Check(Len(x.calc) = Len(ds) /\ {x.calc[j].obs : j \in DOMAIN x.calc} = D, "rows of calc_model")
          /\ Check(\A j \in DOMAIN x.calc : x.calc[j].ok, "values of calc_model")
          /\ Check(x.tab = [g \in 1..x.size[1] |-> [m \in 1..x.size[2] |-> <<g, m>>]], "values for a table of parameters")
          /\ Check(x.exact, "cost or stored result")
          /\ Check(x.knots, "an interpolated parameter misses a group value at the mean time of the group")
Init == k = 1
Next == /\ k <= Len(R) /\ k' = k + 1 /\ Judge(R[k])
        /\ IF k = Len(R) THEN PrintT(<<"JUDGED", k>>) ELSE TRUE
Spec == Init /\ [][Next]_k
=============================================================================
