--------------------------- MODULE IsolationOps ---------------------------
(* Parts of stored fits are represented by their owner: the input they stem *)
(* from (0: nothing, -1: auxiliary data of the parent fit itself,           *)
(* -9: not stored).                                                         *)
EXTENDS Integers, FiniteSets
(* exists: the reader finds a dump of this input (made from its own data and *)
(* auxiliary data) and the handler returns the dumped fit                    *)
NoFit == {"skip", "data", "other", "empty", "nodf", "fiterr"}
Unread == NoFit \ {"fiterr"}
Absent == [data |-> -9, aux |-> -9, rarg |-> -9, id |-> -9, res |-> -9]
(* what has to be stored for an input: its own parts only *)
Expected(k, b, i) ==
  IF k \in NoFit THEN Absent
  ELSE [data |-> i,
        aux |-> IF k \in {"aux", "exists"} THEN i ELSE IF k = "auxlist" THEN 0 ELSE IF b THEN -1 ELSE 0,
        rarg |-> i, id |-> i, res |-> i]
(* the run in which an input gets stored, 0: never (ks: kinds of every run)  *)
When(ks, i) == LET S == {r \in DOMAIN ks : ks[r][i] \notin NoFit}
               IN IF S = {} THEN 0 ELSE CHOOSE r \in S : \A q \in S : r <= q
DoneBefore(ks, r) == {i \in DOMAIN ks[r] : When(ks, i) # 0 /\ When(ks, i) < r}
(* the exception handler sees every failure exactly once, with the input it *)
(* belongs to                                                               *)
ExpectedErr(ks, r) == {i \in DOMAIN ks[r] : i \notin DoneBefore(ks, r) /\ ks[r][i] \in NoFit \union {"exists"}}
=============================================================================
