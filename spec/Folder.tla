------------------------------- MODULE Folder -------------------------------
(* Processing folders below one save path: what a set-up may do to the files *)
(* that exist already, depending on the answers to its prompts.              *)
(* Contents are numbers (0: the file is missing).  The content of a copied   *)
(* configuration is 10 * version of the given file + overrides.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dirs, MaxOps, Design, Random
VARIABLES fs,        \* content of every file
          there,     \* folders that exist
          cv, mv,    \* versions of the given configuration and module
          clock,     \* source of new contents
          out,       \* observation of the last set-up
          hist, phase
vars == <<fs, there, cv, mv, clock, out, hist, phase>>

Kinds == {"cfg", "mod", "mod2", "db", "dump", "log", "notes"}
Files == Dirs \X Kinds
Other == "other"                      \* a file in the save path, next to the folders
All == Files \cup {<<Other, "x">>}

Yes == {"YES", "Y"}
Upper(a) == CASE a \in {"yes", "Yes", "YES"} -> "YES" [] a \in {"y", "Y"} -> "Y"
              [] a \in {"no", "NO"} -> "NO" [] a \in {"n", "N"} -> "N"
              [] a \in {"remove", "REMOVE", "Remove"} -> "REMOVE" [] OTHER -> "?"
First == {"YES", "y", "Yes", "Y", "no", "N", "", "maybe", "abc", "REMOVE", "remove", "REMOV", "yesno", "REMOVE y", "?"}
Second == {"y", "YES", "Yes", "n", "NO", "", "REMOVE", "maybe", "abc", "nyes"}

\* what the dialogue decides
Decision(auto, d, a, b) ==
   IF auto \/ d \notin there THEN "go"
   ELSE IF Upper(a) = "REMOVE" THEN (IF Upper(b) \in Yes \/ Design = "no-second-question" THEN "remove" ELSE "stop")
   ELSE IF Upper(a) \in Yes \/ (Design = "unclear-continues" /\ Upper(a) = "?") THEN "go" ELSE "stop"
Prompts(auto, d, a) == IF auto \/ d \notin there THEN 0 ELSE IF Upper(a) = "REMOVE" THEN 2 ELSE 1

Cleared(d) == [f \in All |-> IF f[1] = d \/ (Design = "removes-all" /\ f[1] # Other) THEN 0 ELSE fs[f]]
\* the files after the set-up proper (copies are made where they are missing)
Copied(g, d, ov) ==
   [f \in All |->
      IF f = <<d, "cfg">> THEN (IF g[f] # 0 /\ ov = 0 /\ Design # "overwrites" THEN g[f] ELSE 10 * cv + ov)
      ELSE IF f \in {<<d, "mod">>, <<d, "mod2">>} THEN (IF g[f] # 0 THEN g[f] ELSE mv)
      ELSE g[f]]
Setup(d, auto, copy, ov, a, b) ==
   LET dec == Decision(auto, d, a, b)
       g == IF dec = "remove" THEN Cleared(d) ELSE fs
       h == IF copy THEN Copied(g, d, ov) ELSE g
   IN IF dec = "stop"
      THEN out' = [res |-> "stop", prompts |-> Prompts(auto, d, a), cfg |-> 0, mod |-> 0, dec |-> dec] /\ UNCHANGED <<fs, there>>
      ELSE /\ fs' = h /\ there' = there \cup {d}
           /\ out' = [res |-> "ok", prompts |-> Prompts(auto, d, a), dec |-> dec,
                      cfg |-> IF copy THEN h[<<d, "cfg">>] ELSE 10 * cv + ov,
                      mod |-> IF copy THEN h[<<d, "mod">>] ELSE mv]
\* a set-up in a worker process changes nothing (and uses what the main process prepared)
Worker(d, ov) ==
   /\ d \in there /\ \A k \in {"cfg", "mod", "mod2"} : fs[<<d, k>>] # 0
   /\ out' = [res |-> "worker", prompts |-> 0, cfg |-> fs[<<d, "cfg">>], mod |-> fs[<<d, "mod">>], dec |-> "go"]
   /\ UNCHANGED <<fs, there>>
\* results, logs, notes of the user, edited copies
Write(f) == fs' = [fs EXCEPT ![f] = IF f[2] = "cfg" THEN 10 * (clock + 1) ELSE clock + 1] /\ clock' = clock + 1
            /\ there' = (IF f[1] = Other THEN there ELSE there \cup {f[1]})
Delete(f) == fs[f] # 0 /\ fs' = [fs EXCEPT ![f] = 0] /\ UNCHANGED <<there, clock>>
None0 == [res |-> "-", prompts |-> 0, cfg |-> 0, mod |-> 0, dec |-> "-"]

-----------------------------------------------------------------------------
LastOp == IF hist = <<>> THEN [op |-> "-"] ELSE hist[Len(hist)]
IsSetup == hist' # hist /\ hist'[Len(hist')].op = "setup"
\* nothing that exists is lost or changed, except after a confirmed removal (that folder)
\* and for the copied configuration if overrides are given
NothingLost == [][IsSetup =>
   LET o == hist'[Len(hist')]
       confirmed == ~ o.auto /\ Upper(o.a) = "REMOVE" /\ Upper(o.b) \in Yes
   IN \A f \in All : (fs[f] # 0 /\ fs'[f] # fs[f]) =>
         \/ (confirmed /\ f[1] = o.d)
         \/ (f = <<o.d, "cfg">> /\ o.ov # 0 /\ o.copy /\ out'.res = "ok")]_vars
\* whatever is not a clear yes (or a confirmed removal) stops, with everything as it was
StopsClean == [][IsSetup =>
   LET o == hist'[Len(hist')]
   IN (~ o.auto /\ o.d \in there /\ Upper(o.a) \notin Yes /\ ~ (Upper(o.a) = "REMOVE" /\ Upper(o.b) \in Yes))
         => (out'.res = "stop" /\ fs' = fs /\ there' = there)]_vars
RemovesAll == [][(IsSetup /\ out'.dec = "remove") =>
   LET o == hist'[Len(hist')]
   IN \A f \in Files : f[1] = o.d /\ f[2] \notin {"cfg", "mod", "mod2"} => fs'[f] = 0]_vars
UsesKept == [][(IsSetup /\ out'.res = "ok" /\ hist'[Len(hist')].copy) =>
   LET o == hist'[Len(hist')]
   IN /\ out'.cfg = fs'[<<o.d, "cfg">>] /\ out'.mod = fs'[<<o.d, "mod">>]
      /\ (out'.dec = "go" /\ fs[<<o.d, "cfg">>] # 0 /\ o.ov = 0) => out'.cfg = fs[<<o.d, "cfg">>]
      /\ (out'.dec = "go" /\ fs[<<o.d, "mod">>] # 0) => out'.mod = fs[<<o.d, "mod">>]]_vars

-----------------------------------------------------------------------------
Init == /\ fs = [f \in All |-> 0] /\ there = {} /\ cv = 1 /\ mv = 1 /\ clock = 10 /\ out = None0 /\ hist = <<>> /\ phase = "run"
Rnd(X) == RandomElement(IF Len(hist) < 0 THEN {} ELSE X)
P(X) == IF Random THEN {Rnd(X)} ELSE X
FirstS == IF Random THEN First ELSE {"YES", "no", "maybe", "REMOVE"}
SecondS == IF Random THEN Second ELSE {"y", "n", "maybe"}
Tree(f) == [fs |-> {<<x[1], x[2], f[x]>> : x \in {x \in All : f[x] # 0}}]
Log(r) == hist' = Append(hist, r @@ [fs |-> {<<x[1], x[2], fs'[x]>> : x \in {x \in All : fs'[x] # 0}}, there |-> there', out |-> out'])
          /\ phase' = phase
\* (set-ups that copy and that ask are drawn more often)
DoSetup == \E d \in P(Dirs), au \in P(1..4), co \in P(1..4), o \in P(0..4) :
           \E auto \in {au = 1}, copy \in {co # 1}, ov \in {IF o > 2 THEN 0 ELSE o} :
           \E a \in P(FirstS), b \in P(SecondS) :
              /\ Setup(d, auto, copy, ov, a, b)
              /\ Log([op |-> "setup", d |-> d, auto |-> auto, copy |-> copy, ov |-> ov, a |-> a, b |-> b])
              /\ UNCHANGED <<cv, mv, clock>>
Ready == {d \in Dirs : d \in there /\ \A k \in {"cfg", "mod", "mod2"} : fs[<<d, k>>] # 0}
DoWorker == \E d \in P(Ready), ov \in P({0, 1}) : Worker(d, ov) /\ Log([op |-> "worker", d |-> d, ov |-> ov]) /\ UNCHANGED <<cv, mv, clock>>
DoWrite == \E f \in P(All) : Write(f) /\ out' = None0 /\ Log([op |-> "write", f |-> f]) /\ UNCHANGED <<cv, mv>>
Present == {f \in All : fs[f] # 0}
DoDelete == \E f \in P(Present) : Delete(f) /\ out' = None0 /\ Log([op |-> "delete", f |-> f]) /\ UNCHANGED <<cv, mv>>
DoGiven == /\ \/ cv' = cv + 1 /\ mv' = mv
              \/ mv' = mv + 1 /\ cv' = cv
           /\ (~ Random => cv + mv < 3)
           /\ out' = None0 /\ UNCHANGED <<fs, there, clock>> /\ Log([op |-> "given", cv |-> cv', mv |-> mv'])
Next == /\ phase = "run" /\ Len(hist) < MaxOps
        /\ IF Random
           THEN \E w \in {Rnd(1..10)} : \/ (w <= 5 /\ DoSetup)
                                         \/ (w = 6 /\ (IF Ready # {} THEN DoWorker ELSE DoSetup))
                                         \/ (w \in {7, 8} /\ DoWrite)
                                         \/ (w = 9 /\ (IF Present # {} THEN DoDelete ELSE DoSetup))
                                         \/ (w = 10 /\ DoGiven)
           ELSE DoSetup \/ DoWorker \/ DoWrite \/ DoDelete \/ DoGiven
Finish == /\ phase = "run" /\ Len(hist) = MaxOps /\ Random
          /\ phase' = "done" /\ UNCHANGED <<fs, there, cv, mv, clock, out, hist>> /\ PrintT(<<"BEH", ToJson(hist)>>)
Spec == Init /\ [][Next \/ Finish]_vars
View == <<fs, there, cv, mv, clock, out, Len(hist)>>
=============================================================================
