--------------------------- MODULE PipelineTrace ---------------------------
(* Judges recorded runs of the real pool.  One record per run: sizes, kinds   *)
(* of the inputs, fault, the observable events in order and the final content *)
(* of the database.  State: what the events imply about queues and processes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, st
vars == <<r, k, st>>

Fresh(run) == [q |-> 0, o |-> 0, started |-> [i \in 1..run.n |-> 0],
               full |-> [w \in 1..run.nr |-> FALSE],     \* only full readings since this writer's last write
               pause |-> 0,                               \* writer that closed the gate (0: nobody)
               cnt |-> [w \in 1..run.nw |-> 0],           \* starts per worker during the pause
               abort |-> FALSE, pooldone |-> FALSE, cexit |-> 0, open |-> 0]

Say(c) == PrintT(<<"FAIL", r, c, k>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)

Full(n, run) == n >= run.cache
\* effect of one event on the implied state
Eff(s, e, run) ==
  CASE e.e = "start" ->
         [s EXCEPT !.started[e.i] = @ + 1,
                   !.cnt = IF s.pause # 0 THEN [@ EXCEPT ![e.w] = @ + 1] ELSE @]
    [] e.e = "qput" -> [s EXCEPT !.q = @ + 1]
    [] e.e = "qget" -> [s EXCEPT !.q = @ - 1]
    [] e.e = "oput" -> [s EXCEPT !.o = @ + 1]
    [] e.e = "wchk" ->
         \* a writer about to fetch: did it see a full output queue all the time?
         IF s.full[e.w] /\ Full(s.o, run) /\ s.pause = 0
           THEN [s EXCEPT !.pause = e.w, !.cnt = [w \in 1..run.nw |-> 0]]
           ELSE s
    [] e.e = "oget" ->
         [s EXCEPT !.o = @ - 1,
                   !.full = [w \in 1..run.nr |-> s.full[w] /\ (Full(s.o - 1, run))],
                   !.pause = IF run.nr > 1 /\ ~Full(s.o - 1, run) THEN 0 ELSE @]
    [] e.e \in {"close", "wtimeout"} ->
         [s EXCEPT !.full = [@ EXCEPT ![e.w] = Full(s.o, run)], !.pause = 0,
                   !.open = IF e.e = "close" THEN 0 ELSE @]
    [] e.e = "open" -> [s EXCEPT !.open = e.w]
    [] e.e \in {"wfail", "signal", "crash"} -> [s EXCEPT !.abort = TRUE, !.pause = 0]
    [] e.e = "pooldone" -> [s EXCEPT !.pooldone = TRUE]
    [] e.e = "cexit" -> [s EXCEPT !.cexit = @ + 1]
    [] OTHER -> s

\* what must hold when the event happens
Ok(s, e, run) ==
  /\ Check(e.e = "start" => s.started[e.i] = 0, "input started twice")
  /\ Check((e.e = "start" /\ s.pause # 0) => s.cnt[e.w] = 0, "worker starts inputs while writing lags behind")
  /\ Check(e.e = "open" => s.open = 0, "two writers have the database open")
  /\ Check((e.e = "cexit" /\ ~s.abort) => (s.q = 0 /\ s.pooldone), "combiner stopped before the results were drained")
  /\ Check((e.e = "wexit" /\ ~s.abort) => (s.o = 0 /\ s.cexit = run.nc), "writer stopped before everything was written")
  /\ Check(e.e # "overlap", "two writers have the database open")

Oks(run) == {i \in 1..run.n : run.kind[i] = "ok"}
NotNone(run) == {i \in 1..run.n : run.kind[i] # "none"}
Final(s, run) ==
  LET clean == run.fault = "none" IN
  /\ Check(run.hung = "", "run does not terminate")
  /\ Check(run.hung # "" \/ run.foreign = 0, "database contains something that belongs to no successful input")
  /\ Check(\A i \in 1..run.n : i \notin Oks(run) => run.copies[i].max = 0, "something stored for a skipped or failed input")
  /\ Check(\A i \in Oks(run) : run.copies[i].max <= 1, "a result is stored more than once")
  /\ Check(\A i \in 1..run.n : run.copies[i].exact = 1, "a stored result differs from what was computed")
  /\ (run.hung = "" /\ clean) =>
       /\ Check(\A i \in Oks(run) : run.copies[i].min = 1, "a successful result is not stored")
       /\ Check(\A i \in 1..run.n : s.started[i] = 1, "an input was not processed exactly once")
       /\ Check(s.q = 0 /\ s.o = 0, "results left in the queues")
       /\ Check(run.tot < 0 \/ run.mean = Cardinality(Oks(run)), "successful counter wrong")
       /\ Check(run.tot < 0 \/ (run.tot >= Cardinality(NotNone(run)) /\ run.tot <= run.n), "total counter wrong")
       /\ Check(run.error = "", "the run ends with an error")
  /\ (run.hung = "" /\ ~clean /\ run.tot >= 0) =>
       Check(run.mean <= run.tot /\ run.tot <= run.n, "counters out of range")

Init == r = 1 /\ k = 1 /\ st = IF Len(Runs) = 0 THEN <<>> ELSE Fresh(Runs[1])
Next ==
  /\ r <= Len(Runs)
  /\ LET run == Runs[r] IN
     IF k <= Len(run.ev)
       THEN /\ Ok(st, run.ev[k], run)
            /\ st' = Eff(st, run.ev[k], run)
            /\ k' = k + 1 /\ r' = r
       ELSE /\ Final(st, run)
            /\ r' = r + 1 /\ k' = 1
            /\ st' = IF r < Len(Runs) THEN Fresh(Runs[r + 1]) ELSE <<>>
            /\ IF r = Len(Runs) THEN PrintT(<<"JUDGED", r>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
