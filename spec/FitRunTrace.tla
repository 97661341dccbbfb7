----------------------------- MODULE FitRunTrace -----------------------------
(* Judges recorded fits against FitRun.  Record:                                  *)
(*  runs[r]: evals[j]  = [in |-> all values inside the bounds, c |-> cost, cls |-> class]   *)
(*           (costs in 10^-6 of the cost of the start values, classes: equal points)        *)
(*           acc       = evaluated points that were accepted (where derivatives were taken) *)
(*           start, res = class of the declared start values, of the stored result          *)
(*           rep       = the model evaluated with the stored result gives the final residuals *)
(*           log       = the recorded intermediate results are the evaluations               *)
(*  free     the measurements are what the start values produce                               *)
(*  Cmp == costs are compared up to 10^-5 of the cost of the start values                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Say(c) == PrintT(<<"FAIL", k, c>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)
Run(x, u) ==
  LET E == u.evals A == u.acc IN
  /\ Check(\A j \in DOMAIN E : E[j].in, "a value outside of its bounds was tried")
  /\ Check(u.inside, "a fitted value lies outside of its bounds")
  /\ Check(E # <<>> /\ E[1].cls = u.start, "the fit does not begin at the declared start values")
  /\ Check(\A a, b \in DOMAIN A : a < b => E[A[b]].c <= E[A[a]].c + 10, "an accepted step increases the weighted squared residuals")
  /\ Check(u.final <= E[1].c + 10, "the result is worse than the start values")
  /\ Check(\E j \in DOMAIN E : E[j].cls = u.res /\ E[j].c <= u.final + 10 /\ u.final <= E[j].c + 10,
           "the stored result is not a point that was evaluated with the reported cost")
  /\ Check(\A a \in DOMAIN A : u.final <= E[A[a]].c + 10, "the stored result is worse than an accepted point")
  /\ Check(u.rep, "the stored results do not reproduce the final residuals")
  /\ Check(u.log, "the recorded intermediate results are not the evaluations")
  /\ Check(x.free => u.exact, "measurements produced by the model are not reproduced")
Judge(x) ==
  /\ \A r \in DOMAIN x.runs : Run(x, x.runs[r])
  /\ Check(\A r \in DOMAIN x.runs : x.runs[r].same, "repeating the fit gives another result")
Init == k = 1
Next == /\ k <= Len(R) /\ k' = k + 1 /\ Judge(R[k])
        /\ IF k = Len(R) THEN PrintT(<<"JUDGED", k>>) ELSE TRUE
Spec == Init /\ [][Next]_k
==============================================================================
