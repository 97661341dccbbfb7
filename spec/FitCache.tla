------------------------------ MODULE FitCache ------------------------------
(* Fit objects answer for their current definition although they keep what they   *)
(* evaluated.  Objects Obj; those of Shared are the configurations of one          *)
(* multi-configuration object and always get their dataset together.  A definition *)
(* assigns a version to every field.  A kept value is described by the set of       *)
(* <<field, version>> pairs it was derived from.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Obj, Shared, Vers,     \* Vers[f]: number of versions of the field
          Fields, Trigger, Forget, Fan, L, Hist
\* Trigger: fields whose assignment drops kept values; Forget: ... the interaction functions
\* Fan: TRUE if replacing the shared dataset goes through the assignment of every configuration
Quant == {"groups", "layout", "interp", "fixed", "objects", "symbols", "inter", "model"}
Own(q) == CASE q \in {"groups", "layout", "fixed"} -> {"ds", "dd"}
            [] q = "interp" -> {"dd"}
            [] q \in {"objects", "symbols", "inter"} -> {"dd", "sv"}
            [] OTHER -> {"unit"}
Uses(q) == CASE q = "layout" -> {"groups"}
             [] q = "fixed" -> {"layout"}
             [] q = "symbols" -> {"objects"}
             [] q = "inter" -> {"objects"}
             [] q = "model" -> {"layout", "interp", "fixed", "objects", "symbols", "inter"}
             [] OTHER -> {}
RECURSIVE Below(_)
Below(q) == {q} \cup UNION {Below(r) : r \in Uses(q)}
NeedsOf == [q \in Quant |-> Fields \cap UNION {Own(r) : r \in Below(q)}]
Needs(q) == NeedsOf[q]
\* fixed parameters, unit conversion and the model values themselves are evaluated anew at every request
Kept == Quant \ {"fixed", "model"}
VARIABLES cur, kept, res, dead, hist, done
vars == <<cur, kept, res, dead, hist, done>>
Empty == [q \in Kept |-> {}]
Now(o, F) == {<<f, cur[o][f]>> : f \in F}
RECURSIVE Val(_, _)
Val(o, q) == IF q \in Kept /\ kept[o][q] # {} THEN kept[o][q]
             ELSE Now(o, Own(q) \cap Fields) \cup UNION {Val(o, r) : r \in Uses(q)}
Fill(o, q, k) == [r \in Kept |-> IF r \in Below(q) /\ k[r] = {} THEN Val(o, r) ELSE k[r]]
Log(e) == hist' = IF Hist THEN Append(hist, e) ELSE hist
More == ~done /\ Len(hist) < L
Live(o) == o \notin dead
Init == /\ cur \in [Obj -> [Fields -> {1}]] /\ kept = [o \in Obj |-> Empty]
        /\ res = [o \in Obj |-> <<>>] /\ dead = {} /\ hist = <<>> /\ done = FALSE
\* ---- assigning a definition
Drop(f) == IF f \in Trigger THEN [o \in Obj |-> [q \in Kept |-> IF q = "inter" THEN kept[o][q] ELSE {}]] ELSE kept
Assign(o, f, v) ==
  /\ More /\ Live(o) /\ ~(f = "ds" /\ o \in Shared) /\ v \in 1..Vers[f]
  /\ cur' = [cur EXCEPT ![o][f] = v]
  /\ LET k == Drop(f) IN kept' = IF f \in Forget THEN [k EXCEPT ![o]["inter"] = {}] ELSE k
  /\ Log([op |-> "assign", o |-> o, f |-> f, v |-> v, cur |-> cur'[o]]) /\ UNCHANGED <<res, dead, done>>
Replace(v) ==
  /\ More /\ Shared # {} /\ \A o \in Shared : Live(o)
  /\ v \in 1..Vers["ds"]
  /\ cur' = [o \in Obj |-> IF o \in Shared THEN [cur[o] EXCEPT !["ds"] = v] ELSE cur[o]]
  /\ kept' = IF Fan THEN Drop("ds") ELSE kept
  /\ Log([op |-> "replace", v |-> v]) /\ UNCHANGED <<res, dead, done>>
\* ---- asking
Read(o, q) ==
  /\ More /\ Live(o) /\ kept' = [kept EXCEPT ![o] = Fill(o, q, @)]
  /\ Log([op |-> "read", o |-> o, q |-> q, cur |-> cur[o]]) /\ UNCHANGED <<cur, res, dead, done>>
Fit(o) ==
  /\ More /\ Live(o)
  /\ LET k == [p \in Obj |-> [q \in Kept |-> IF q = "inter" THEN kept[p][q] ELSE {}]]
     IN kept' = [k EXCEPT ![o] = [q \in Kept |-> IF k[o][q] # {} THEN k[o][q]
                                   ELSE Now(o, Needs(q))]]
  /\ res' = [res EXCEPT ![o] = cur[o]]
  /\ Log([op |-> "fit", o |-> o, cur |-> cur[o]]) /\ UNCHANGED <<cur, dead, done>>
ReadFit(o) ==
  /\ More /\ Live(o) /\ res[o] = cur[o] /\ kept' = [kept EXCEPT ![o] = Fill(o, "model", @)]
  /\ Log([op |-> "readfit", o |-> o, cur |-> cur[o]]) /\ UNCHANGED <<cur, res, dead, done>>
\* ---- copies: a new object p with the definition of o, one field replaced
Copy(o, p, how, f, v) ==
  /\ More /\ Live(o) /\ o # p /\ p \notin Shared /\ f \in Fields /\ v \in 1..Vers[f]
  /\ cur' = [cur EXCEPT ![p] = IF how = "reinit" THEN [cur[o] EXCEPT ![f] = v] ELSE cur[o]]
  /\ kept' = [kept EXCEPT ![p] = Empty]
  /\ res' = [res EXCEPT ![p] = IF how = "reinit" THEN <<>> ELSE res[o]]
  /\ dead' = dead \ {p}
  /\ Log([op |-> "copy", o |-> o, p |-> p, how |-> how, f |-> f, v |-> v, cur |-> cur'[p]]) /\ UNCHANGED done
\* everything mutable an object holds is altered in place: it must not be used any more, the others must not notice
Poison(o) ==
  /\ More /\ Live(o) /\ o \notin Shared /\ Cardinality(dead) = 0
  /\ dead' = dead \cup {o}
  /\ Log([op |-> "poison", o |-> o, others |-> [p \in Obj \ {o} |-> cur[p]]]) /\ UNCHANGED <<cur, kept, res, done>>
Finish == /\ Hist /\ ~done /\ Len(hist) = L /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>)
          /\ UNCHANGED <<cur, kept, res, dead, hist>>
Next == \/ \E o \in Obj : \/ \E f \in Fields : \E v \in 1..Vers[f] : Assign(o, f, v)
                          \/ \E q \in Quant : Read(o, q)
                          \/ Fit(o) \/ ReadFit(o) \/ Poison(o)
                          \/ \E p \in Obj, how \in {"reinit", "deepcopy", "dump"}, f \in Fields : \E v \in 1..Vers[f] : Copy(o, p, how, f, v)
        \/ \E v \in 1..Vers["ds"] : Replace(v)
        \/ Finish
\* simulation: balanced choice of the kind of step
\* (mentioning a variable keeps TLC from choosing once and for all)
Pick(S) == {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)}
SimNext ==
  \/ Finish
  \/ \E o \in Pick(Obj), f \in Pick(Fields), q \in Pick(Quant), p \in Pick(Obj), how \in Pick({"reinit", "deepcopy", "dump"}),
        w \in Pick(1..60), k \in 1..12 :
       LET v == (w % Vers[f]) + 1 IN
       CASE k = 1 -> Assign(o, f, v)
         [] k = 2 -> Read(o, q)
         [] k = 3 -> Read(o, "model")
         [] k = 4 -> w % 2 = 0 /\ Fit(o)
         [] k = 5 -> ReadFit(o)
         [] k = 6 -> Copy(o, p, how, f, v)
         [] k = 7 -> (\E i \in DOMAIN hist : hist[i].op = "copy" /\ o \in {hist[i].o, hist[i].p}) /\ Poison(o)
         [] k = 11 -> Copy(o, p, "reinit", f, v)
         [] k = 12 -> (hist # <<>> /\ hist[Len(hist)].op = "copy") /\ Poison(hist[Len(hist)].p)
         [] k = 8 -> w % 2 = 0 /\ Replace((w % Vers["ds"]) + 1)
         [] k = 9 -> Assign(o, "dd", (w % Vers["dd"]) + 1)
         [] k = 10 -> Assign(o, IF w % 4 = 0 THEN "ds" ELSE "sv", (w % (IF w % 4 = 0 THEN Vers["ds"] ELSE Vers["sv"])) + 1)
\* few definitions that differ in little (the same layout at other times): what is kept wrongly still fits in shape
NearDs == {1, Vers["ds"]}
NearDd == IF Vers["dd"] >= 5 THEN {3, 5} ELSE {1}
NearNext ==
  \/ Finish
  \/ \E o \in Pick(Obj), q \in Pick(Kept), w \in Pick(1..60), k \in 1..6 :
       CASE k = 1 -> \E v \in Pick(NearDs \ {cur[o]["ds"]}) : IF o \in Shared THEN Replace(v) ELSE Assign(o, "ds", v)
         [] k = 2 -> \E v \in Pick(NearDd) : (Len(hist) < 3 \/ w % 3 = 0) /\ Assign(o, "dd", v)
         [] k = 3 -> Read(o, "model")
         [] k = 4 -> w % 2 = 0 /\ Fit(o)
         [] k = 5 -> ReadFit(o)
         [] k = 6 -> w % 3 = 0 /\ Read(o, q)
Spec == Init /\ [][Next]_vars
NearSpec == Init /\ [][NearNext]_vars
SimSpec == Init /\ [][SimNext]_vars
\* every answer is that of a newly created object with the same definition
Answer(o, q) == Val(o, q) = Now(o, Needs(q))
NoStale == \A o \in Obj : Live(o) => \A q \in Quant : Answer(o, q)
SharedData == \A o, p \in Shared : cur[o]["ds"] = cur[p]["ds"]
=============================================================================
