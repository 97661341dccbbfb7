---------------------------- MODULE Isolation ----------------------------
(* Processing of many inputs by worker processes that re-use one fit       *)
(* object (the parent fit).  Every part of the worker's fit object and of  *)
(* a stored fit is represented by its owner: the input it stems from       *)
(* (0: nothing, "base" parts that belong to the parent itself: -1).        *)
EXTENDS IsolationOps, Sequences, TLC, Json

CONSTANTS N,        \* inputs
          W,        \* number of workers
          Rounds,   \* runs into the same folder
          Design,   \* "ok" or the name of a broken design
          Kinds     \* what the reader (and the fit) of an input does
AllKinds == {"plain", "aux", "auxnone", "auxlist", "skip", "data", "other", "empty", "nodf", "fiterr", "exists"}
FewKinds == {"plain", "aux", "exists", "fiterr"}

Inputs == 1..N
Workers == 1..W
None == 0

VARIABLES kind,     \* kind[r][i]: behaviour of input i in run r
          base,     \* the parent fit has auxiliary data of its own
          run,      \* current run
          todo,     \* inputs of this run that nobody took
          pc,       \* worker -> step
          cur,      \* worker -> current input
          par,      \* worker -> its fit object
          db,       \* input -> stored parts
          err,      \* recorded errors
          reads     \* reads[r][i]: how often the input was read
vars == <<kind, base, run, todo, pc, cur, par, db, err, reads>>

Blank == [data |-> None, aux |-> None, rarg |-> None, id |-> None, res |-> None]
BaseAux == IF base THEN -1 ELSE None
Fresh == [Blank EXCEPT !.aux = BaseAux]

Stored == {i \in Inputs : db[i] # Absent}

Init ==
  /\ kind \in [1..Rounds -> [Inputs -> Kinds]]
  /\ base \in BOOLEAN
  /\ run = 1
  /\ todo = Inputs
  /\ pc = [w \in Workers |-> "idle"] /\ cur = [w \in Workers |-> None]
  /\ par = [w \in Workers |-> Fresh]
  /\ db = [i \in Inputs |-> Absent]
  /\ err = [r \in 1..Rounds |-> {}]
  /\ reads = [r \in 1..Rounds |-> [i \in Inputs |-> 0]]

K(w) == kind[run][cur[w]]
Take(w) ==
  /\ pc[w] = "idle"
  /\ \E i \in todo :
       /\ todo' = todo \ {i}
       /\ cur' = [cur EXCEPT ![w] = i]
       /\ reads' = [reads EXCEPT ![run][i] = @ + 1]
       /\ pc' = [pc EXCEPT ![w] = IF kind[run][i] = "exists" THEN "reuse"
                                    ELSE IF kind[run][i] \in Unread THEN "failed" ELSE "attach"]
  /\ UNCHANGED <<kind, base, run, par, db, err>>
Attach(w) ==
  /\ pc[w] = "attach"
  /\ LET i == cur[w]
         a == CASE K(w) = "aux" -> i
                [] K(w) = "auxlist" -> None        \* (only tables can be stored)
                [] Design = "keepaux" -> par[w].aux
                [] OTHER -> BaseAux
     IN par' = [par EXCEPT ![w] =
                  [data |-> i, aux |-> a, id |-> i,
                   rarg |-> IF Design = "firstrarg" /\ @.rarg # None THEN @.rarg ELSE i,
                   res |-> IF Design = "keepres" THEN @.res ELSE None]]
  /\ pc' = [pc EXCEPT ![w] = "fit"]
  /\ UNCHANGED <<kind, base, run, todo, cur, db, err, reads>>
Fit(w) ==
  /\ pc[w] = "fit"
  /\ IF K(w) = "fiterr" /\ ~(Design = "keepres" /\ par[w].res # None)
     THEN pc' = [pc EXCEPT ![w] = "failed"] /\ UNCHANGED par
     ELSE /\ pc' = [pc EXCEPT ![w] = "store"]
          /\ par' = IF K(w) = "fiterr" THEN par ELSE [par EXCEPT ![w].res = cur[w]]
  /\ UNCHANGED <<kind, base, run, todo, cur, db, err, reads>>
Store(w) ==
  /\ pc[w] = "store"
  /\ db' = [db EXCEPT ![cur[w]] = par[w]]
  /\ pc' = [pc EXCEPT ![w] = "idle"]
  /\ UNCHANGED <<kind, base, run, todo, cur, par, err, reads>>
Fail(w) ==
  /\ pc[w] = "failed"
  /\ err' = [err EXCEPT ![run] = @ \union {cur[w]}]
  /\ IF Design = "storefailed" /\ par[w].data # None /\ K(w) # "plain"
     THEN db' = [db EXCEPT ![cur[w]] = par[w]] ELSE UNCHANGED db
  /\ pc' = [pc EXCEPT ![w] = "idle"]
  /\ UNCHANGED <<kind, base, run, todo, cur, par, reads>>
(* the dumped fit is stored: the worker's fit object is not involved *)
Reuse(w) ==
  /\ pc[w] = "reuse"
  /\ err' = [err EXCEPT ![run] = @ \union {cur[w]}]
  /\ db' = [db EXCEPT ![cur[w]] = [data |-> cur[w], aux |-> cur[w], rarg |-> cur[w], id |-> cur[w], res |-> cur[w]]]
  /\ pc' = [pc EXCEPT ![w] = "idle"]
  /\ UNCHANGED <<kind, base, run, todo, cur, par, reads>>
(* the next run into the same folder: new workers, what is stored is not    *)
(* processed again                                                          *)
Rerun ==
  /\ run < Rounds /\ todo = {} /\ \A w \in Workers : pc[w] = "idle"
  /\ run' = run + 1
  /\ todo' = Inputs \ Stored
  /\ par' = [w \in Workers |-> Fresh]
  /\ cur' = [w \in Workers |-> None]
  /\ UNCHANGED <<kind, base, pc, db, err, reads>>

Next == Rerun \/ \E w \in Workers : Take(w) \/ Attach(w) \/ Fit(w) \/ Store(w) \/ Fail(w) \/ Reuse(w)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- invariants *)
Own == \A i \in Stored :
         /\ When(kind, i) # 0
         /\ db[i] = Expected(kind[When(kind, i)][i], base, i)
Done(r) == r < run \/ (todo = {} /\ \A w \in Workers : pc[w] = "idle")
Complete == \A r \in 1..run : Done(r) =>
              \A i \in Inputs : (When(kind, i) # 0 /\ When(kind, i) <= r) => i \in Stored
Errors == \A r \in 1..run : Done(r) => err[r] = ExpectedErr(kind, r)
Once == \A r \in 1..run : \A i \in Inputs :
          reads[r][i] <= (IF i \in DoneBefore(kind, r) THEN 0 ELSE 1)

===========================================================================
