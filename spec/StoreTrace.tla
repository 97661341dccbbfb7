----------------------------- MODULE StoreTrace -----------------------------
(* Judges a recorded history of real runs over one database.  Per run: the   *)
(* list of inputs, which of them fail, how the run was stopped, which inputs  *)
(* were started, what the database contained afterwards.  State: the map      *)
(* from inputs to (number, content) implied by the history so far.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k, db
vars == <<h, k, db>>
Nothing == [num |-> 0 - 1, sig |-> "", full |-> TRUE]
Fresh(x) == [i \in 1..x.m |-> Nothing]

Say(c) == PrintT(<<"FAIL", h, c, k>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)

Set(s) == {s[j] : j \in 1..Len(s)}
\* what the run left in the database, per input: seq of records [num, sig, full]
After(r, i) == r.after[i]
Stored(d) == {i \in DOMAIN d : d[i].num >= 0}

Judge(x, r) ==
  LET todo == {i \in Set(r.list) : i \notin Stored(db)}
      nums == {After(r, i)[j].num : i \in {a \in 1..x.m : Len(After(r, a)) > 0}, j \in {1}}
      have == {i \in 1..x.m : Len(After(r, i)) > 0}
  IN /\ Check(r.hung = "", "run does not end")
     /\ Check(Set(r.started) \subseteq todo, "an input that is already stored (or not in the list) was processed again")
     /\ Check(r.stop # "none" \/ r.hung # "" \/ Set(r.started) = todo, "an input that is not stored was not processed")
     /\ Check(Len(r.started) = Cardinality(Set(r.started)), "an input was processed twice")
     /\ Check(r.masked = <<0>> \/ Set(r.masked) = todo, "the mask of existing IDs selects other inputs")
     /\ Check(\A i \in 1..x.m : Len(After(r, i)) <= 1, "an ID is stored twice")
     /\ Check(\A i \in Stored(db) : Len(After(r, i)) = 1 /\ After(r, i)[1].num = db[i].num,
              "the number of a stored ID changed or its record vanished")
     /\ Check(\A i \in Stored(db) : Len(After(r, i)) = 1 => After(r, i)[1].sig = db[i].sig,
              "a stored record changed")
     /\ Check(\A i, j \in have : i # j => After(r, i)[1].num # After(r, j)[1].num,
              "two IDs share a number")
     /\ Check(\A i \in have \ Stored(db) : i \in todo \ Set(r.bad), "something stored for a failed or foreign input")
     /\ Check(r.stop # "none" \/ r.hung # "" \/ \A i \in todo \ Set(r.bad) : i \in have, "a processed input is not stored")
     /\ Check(\A i \in have : After(r, i)[1].full, "a stored record is incomplete")
     /\ Check(r.foreign = 0, "rows that belong to no stored ID")
     /\ Check(r.readable, "the database is not readable")

Eff(x, r) == [i \in 1..x.m |->
               IF Len(After(r, i)) = 0 THEN Nothing ELSE After(r, i)[1]]
Init == h = 1 /\ k = 1 /\ db = IF Len(H) = 0 THEN <<>> ELSE Fresh(H[1])
Next == /\ h <= Len(H)
        /\ LET x == H[h] IN
           IF k <= Len(x.runs)
             THEN /\ Judge(x, x.runs[k]) /\ db' = Eff(x, x.runs[k]) /\ k' = k + 1 /\ h' = h
             ELSE /\ h' = h + 1 /\ k' = 1
                  /\ db' = IF h < Len(H) THEN Fresh(H[h + 1]) ELSE <<>>
                  /\ IF h = Len(H) THEN PrintT(<<"JUDGED", h>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
