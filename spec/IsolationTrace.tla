-------------------------- MODULE IsolationTrace --------------------------
(* recorded runs of the real code judged by the operators of Isolation       *)
(* record: kind, base; reads: per run the list of inputs the reader was      *)
(* called for; errs: per run the list of inputs the handler was called for;  *)
(* db: per run, per input the owners of the stored parts                     *)
EXTENDS IsolationOps, Sequences, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n
Say(c) == PrintT(<<"FAIL", n, c>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)
Range(s) == {s[k] : k \in DOMAIN s}
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
StoredBy(x, r, i) == When(x.kind, i) # 0 /\ When(x.kind, i) <= r
Want(x, r, i) == IF StoredBy(x, r, i) THEN Expected(x.kind[When(x.kind, i)][i], x.base, i) ELSE Absent
Part(x, p, c) ==
  Check(\A r \in DOMAIN x.db : \A i \in DOMAIN x.db[r] : x.db[r][i][p] = -9 \/ ~StoredBy(x, r, i) \/ x.db[r][i][p] = Want(x, r, i)[p], c)
Init == n = 1
Next == /\ n <= Len(R) /\ n' = n + 1
        /\ LET x == R[n] IN
           /\ Check(\A r \in DOMAIN x.reads : \A i \in DOMAIN x.kind[r] :
                      Count(x.reads[r], i) = (IF i \in DoneBefore(x.kind, r) THEN 0 ELSE 1),
                    "inputs are not read exactly once")
           /\ Check(\A r \in DOMAIN x.errs : Range(x.errs[r]) = ExpectedErr(x.kind, r) /\
                      \A i \in ExpectedErr(x.kind, r) : Count(x.errs[r], i) = 1,
                    "errors are not recorded for the inputs they belong to")
           /\ Check(\A r \in DOMAIN x.db : \A i \in DOMAIN x.db[r] : StoredBy(x, r, i) => x.db[r][i] # Absent,
                    "a fit is missing")
           /\ Check(\A r \in DOMAIN x.db : \A i \in DOMAIN x.db[r] : ~StoredBy(x, r, i) => x.db[r][i] = Absent,
                    "a failed input left traces")
           /\ Part(x, "data", "the dataset of another input")
           /\ Part(x, "aux", "the auxiliary data of another input")
           /\ Part(x, "rarg", "the reader arguments of another input")
           /\ Part(x, "id", "the ID of another input")
           /\ Part(x, "res", "results differ from the fit obtained alone")
        /\ IF n = Len(R) THEN PrintT(<<"JUDGED", n>>) ELSE TRUE
===========================================================================
