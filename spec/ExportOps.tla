----------------------------- MODULE ExportOps -----------------------------
(* What an export of results contains: for every exported fit and requested  *)
(* configuration one value for every requested name, taken from that fit and *)
(* that configuration, in the table and unit the name asks for.              *)
(* defs: sequence of <<name, definition>> of one configuration with          *)
(* definition \in {"fitdyn", "fitconst", "const", "auxiliary"};              *)
(* cust: sequence of <<name, "scalar" | "series">>; cols, rargs: columns of  *)
(* the dataset and keys of the reader arguments; comps: contributions that   *)
(* are calculated                                                            *)
EXTENDS Naturals, Sequences, FiniteSets
Model == {"tot", "surf", "vol", "inter"}
Has(s, n) == \E k \in DOMAIN s : s[k][1] = n
Of(s, n) == s[CHOOSE k \in DOMAIN s : s[k][1] = n][2]
In(s, n) == \E k \in DOMAIN s : s[k] = n
\* where the value of a name comes from
Kind(defs, cust, cols, rargs, comps, n) ==
  CASE Has(cust, n) -> Of(cust, n)
    [] ~Has(cust, n) /\ n \in Model /\ In(comps, n) -> "model"
    [] ~Has(cust, n) /\ n \notin Model /\ Has(defs, n) -> Of(defs, n)
    [] ~Has(cust, n) /\ n \notin Model /\ ~Has(defs, n) /\ In(cols, n) -> "column"
    [] ~Has(cust, n) /\ n \notin Model /\ ~Has(defs, n) /\ ~In(cols, n) /\ In(rargs, n) -> "rarg"
    [] OTHER -> "unknown"
\* ... the table it is stored in
Table(kind) == CASE kind \in {"fitdyn", "auxiliary", "column", "model", "series"} -> "dynamic"
                 [] kind \in {"fitconst", "const", "rarg", "scalar"} -> "static"
                 [] OTHER -> "none"
\* ... and whether it is converted (a custom function is used as it is)
Converted(kind, n, dB, todB, todeg) ==
  \/ n = "sig" /\ kind = "column" /\ todB /\ ~dB
  \/ kind = "model" /\ todB /\ ~dB
  \/ n = "inc" /\ kind = "column" /\ todeg
=============================================================================
