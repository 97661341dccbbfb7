----------------------------- MODULE Persist -----------------------------
(* Storing fits in the results database, restoring them, dumping and       *)
(* loading them.  A database holds tables of rows that carry the number    *)
(* of an ID (and the name of a configuration); a restored object collects  *)
(* the rows of one number.  Every part of a stored fit (dataset, auxiliary *)
(* data, reader arguments, definitions and results of every configuration) *)
(* is represented by its owner: the index of the fit it belongs to.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,          \* fits that can be stored
          NC,         \* configurations (0: single fits)
          MaxObj,     \* objects created by loading
          MaxOps,
          Design,     \* "ok" or the name of a broken design
          Opts        \* set of saving options
AllOpts == [data : BOOLEAN, aux : BOOLEAN, results : BOOLEAN]
FullOpts == {[data |-> TRUE, aux |-> TRUE, results |-> TRUE]}

Fits == 1..N
Cfgs == IF NC = 0 THEN {0} ELSE 1..NC
Parts == {"data", "aux"}

VARIABLES opt,        \* saving options of this database
          has,        \* which fits carry auxiliary data
          dyn,        \* the definitions refer to labels given in the dataset
          num,        \* number of every stored fit (-1: not stored)
          free,       \* numbers that are not available
          tabs,       \* table -> set of rows
          heap,       \* loaded objects
          file,       \* fit -> dumped state
          hist
vars == <<opt, has, dyn, num, free, tabs, heap, file, hist>>

Stored == {i \in Fits : num[i] >= 0}
None == 0

(* ----------------------------------------------------------- expectation *)
(* what every restored object of fit i has to consist of                    *)
Expected(i) ==
  [id   |-> i,
   data |-> IF opt.data THEN i ELSE None,
   labs |-> IF opt.data \/ (opt.results /\ dyn) THEN i ELSE None,
   aux  |-> IF opt.aux /\ has[i] THEN i ELSE None,
   rarg |-> i,
   defs |-> [c \in Cfgs |-> c],
   res  |-> [c \in Cfgs |-> IF opt.results THEN i ELSE None]]
(* a dump keeps everything *)
Full(i) ==
  [id |-> i, data |-> i, labs |-> i, aux |-> IF has[i] THEN i ELSE None, rarg |-> i,
   defs |-> [c \in Cfgs |-> c], res |-> [c \in Cfgs |-> i]]

(* -------------------------------------------------------------- the model *)
Init ==
  /\ opt \in Opts
  /\ has \in [Fits -> BOOLEAN]
  /\ dyn \in BOOLEAN
  /\ num = [i \in Fits |-> -1]
  /\ free \in SUBSET {0, 1}
  /\ tabs = [reader_arg |-> {}, init |-> {}, dataset |-> {}, aux |-> {}, res |-> {}]
  /\ heap = <<>>
  /\ file = [i \in Fits |-> None]
  /\ hist = <<>>

Taken == free \union {num[j] : j \in Stored}
NextNum == CHOOSE n \in 0..(N + 2) : n \notin Taken /\ \A m \in 0..(N + 2) : m < n => m \in Taken

Log(e) == hist' = Append(hist, e)

Store(i) ==
  /\ num[i] = -1
  /\ LET n == NextNum
     IN /\ num' = [num EXCEPT ![i] = n]
        /\ tabs' = [reader_arg |-> tabs.reader_arg \union {<<n, i>>},
                    init |-> tabs.init \union {<<n, c>> : c \in Cfgs},
                    dataset |-> tabs.dataset \union (IF opt.data THEN {<<n, i, "all">>}
                                                     ELSE IF opt.results /\ dyn THEN {<<n, i, "labels">>} ELSE {}),
                    aux |-> tabs.aux \union (IF opt.aux /\ has[i] THEN {<<n, i>>} ELSE {}),
                    res |-> tabs.res \union (IF opt.results THEN {<<n, c, i>> : c \in Cfgs} ELSE {})]
  /\ Log([op |-> "store", i |-> i])
  /\ UNCHANGED <<opt, has, dyn, free, heap, file>>

One(S) == IF S = {} THEN None ELSE CHOOSE x \in S : TRUE
Rank(n, S) == Cardinality({m \in S : m < n})
(* the rows of number n in table T; broken designs pick other rows *)
Pick(T, n) ==
  IF Design = "position"
  THEN LET ns == {r[1] : r \in T}
           k == Rank(n, {num[j] : j \in Stored})
       IN {r \in T : Rank(r[1], ns) = k}
  ELSE {r \in T : r[1] = n}
Restore(n) ==
  LET ra == One({r[2] : r \in Pick(tabs.reader_arg, n)})
      ds == Pick(tabs.dataset, n)
      ax == One({r[2] : r \in Pick(tabs.aux, n)})
      last == IF heap = <<>> THEN None ELSE heap[Len(heap)].st.aux
  IN [id |-> ra,
      data |-> One({r[2] : r \in {q \in ds : q[3] = "all"}}),
      labs |-> One({r[2] : r \in ds}),
      aux |-> IF Design = "stale" /\ ax = None THEN last ELSE ax,
      rarg |-> ra,
      defs |-> [c \in Cfgs |-> IF Design = "firstcfg" THEN CHOOSE d \in Cfgs : \A e \in Cfgs : d <= e ELSE c],
      res |-> [c \in Cfgs |-> One({r[3] : r \in {q \in Pick(tabs.res, n) : q[2] = c}})]]

Add(i, st) == heap' = Append(heap, [of |-> i, st |-> st, dirty |-> FALSE])
Room == Len(heap) < MaxObj

Load(i, by) ==
  /\ Room /\ i \in Stored
  /\ Add(i, Restore(num[i]))
  /\ Log([op |-> "load", i |-> i, by |-> by, num |-> num[i]])
  /\ UNCHANGED <<opt, has, dyn, num, free, tabs, file>>

(* all stored fits in the order of the database *)
LoadAll ==
  /\ Stored # {}
  /\ Log([op |-> "all", n |-> Cardinality(Stored)])
  /\ UNCHANGED <<opt, has, dyn, num, free, tabs, heap, file>>

(* changing a restored object changes neither the database nor the others *)
Change(k) ==
  /\ ~heap[k].dirty
  /\ heap' = IF Design = "alias"
             THEN [j \in DOMAIN heap |-> IF heap[j].of = heap[k].of
                                         THEN [heap[j] EXCEPT !.st.data = None, !.dirty = j = k]
                                         ELSE heap[j]]
             ELSE [heap EXCEPT ![k].dirty = TRUE]
  /\ Log([op |-> "change", k |-> k])
  /\ UNCHANGED <<opt, has, dyn, num, free, tabs, file>>

Dump(i, mini) ==
  /\ file' = [file EXCEPT ![i] = i]
  /\ Log([op |-> "dump", i |-> i, mini |-> mini])
  /\ UNCHANGED <<opt, has, dyn, num, free, tabs, heap>>

LoadDump(i, by) ==
  /\ Room /\ file[i] # None
  /\ Add(i, Full(file[i]))
  /\ Log([op |-> "loaddump", i |-> i, by |-> by])
  /\ UNCHANGED <<opt, has, dyn, num, free, tabs, file>>

Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E i \in Fits : Store(i) \/ Load(i, "number") \/ Dump(i, TRUE) \/ LoadDump(i, "name")
     \/ \E k \in DOMAIN heap : Change(k)
     \/ LoadAll
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- invariants *)
TypeOK == /\ opt \in AllOpts /\ \A i \in Fits : num[i] \in -1..(N + 2)
Distinct == \A i, j \in Stored : i # j => num[i] # num[j]
(* every restored object is exactly what was stored under its ID; dumped    *)
(* ones carry everything                                                     *)
Exact == \A k \in DOMAIN heap :
            \/ heap[k].dirty
            \/ heap[k].st = Expected(heap[k].of)
            \/ heap[k].st = Full(heap[k].of)
(* a later store never changes what an earlier number restores to *)
Stable == \A i \in Stored : Restore(num[i]) = Expected(i)
View == <<opt, has, dyn, num, free, tabs, heap, file, Len(hist)>>

(* ---------------------------------------------- random histories to replay *)
Rnd(X) == RandomElement(IF Len(hist) < 0 THEN {} ELSE X)
GInit ==
  /\ opt \in Opts
  /\ has = [i \in Fits |-> TRUE] /\ dyn = TRUE
  /\ num = [i \in Fits |-> -1]
  /\ free = {}
  /\ tabs = [reader_arg |-> {}, init |-> {}, dataset |-> {}, aux |-> {}, res |-> {}]
  /\ heap = <<>> /\ file = [i \in Fits |-> None]
  /\ hist = <<>>
Start ==
  /\ hist = <<>>
  /\ has' = TLCEval([i \in Fits |-> Rnd(1..3) > 1])
  /\ free' = Rnd({{}, {}, {0}, {1}})
  /\ dyn' = Rnd(BOOLEAN)
  /\ hist' = <<[op |-> "start"]>>
  /\ UNCHANGED <<opt, num, tabs, heap, file>>
GNext ==
  IF hist = <<>> THEN Start
  ELSE IF hist[Len(hist)].op = "end" THEN FALSE
  ELSE IF Len(hist) >= MaxOps
  THEN /\ Log([op |-> "end"]) /\ UNCHANGED <<opt, has, dyn, num, free, tabs, heap, file>>
  ELSE LET w == Rnd(1..12)
           S == Stored
           U == Fits \ S
           D == {i \in Fits : file[i] # None}
           C == {k \in DOMAIN heap : ~heap[k].dirty}
       IN IF (w <= 4 \/ S = {}) /\ U # {} THEN Store(Rnd(U))
          ELSE IF w <= 5 /\ Room /\ D # {} THEN LoadDump(Rnd(D), Rnd({"name", "path", "load", "all"}))
          ELSE IF w <= 6 /\ C # {} THEN Change(Rnd(C))
          ELSE IF w <= 7 THEN Dump(Rnd(Fits), Rnd(BOOLEAN))
          ELSE IF w <= 8 THEN LoadAll
          ELSE IF Room /\ S # {} THEN Load(Rnd(S), Rnd({"number", "name", "random", "results", "results_num"}))
          ELSE LoadAll
Emit ==
  (hist # <<>> /\ hist[Len(hist)].op = "end") =>
  PrintT(<<"BEH", ToJson([opt |-> opt, has |-> has, dyn |-> dyn, free |-> free, hist |-> SubSeq(hist, 2, Len(hist) - 1),
                          objs |-> [k \in DOMAIN heap |-> heap[k].of],
                          full |-> [i \in Fits |-> Full(i)],
                          expect |-> [i \in Fits |-> Expected(i)]])>>)
===========================================================================
