------------------------------ MODULE Pipeline ------------------------------
(* The processing pool of rt1: workers evaluate inputs and put results on a   *)
(* queue; combiners collect batches; one combine-thread per batch puts it on  *)
(* the output queue; writers append the batches to the database under a lock. *)
(* The main process joins the pool, then shuts the stages down in order.      *)
(* Faults: failing / skipped / malformed inputs, one failing write, one       *)
(* termination signal.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N,        \* inputs are 1..N
          NW,       \* workers
          NC,       \* combiners
          NR,       \* writers
          Chunk,    \* results per batch
          Cache,    \* batches waiting to be written before workers are paused
          Kinds,    \* subset of {"ok","skip","fail","none","bad"}
          FailAts,  \* set of: 0 (no write fails) or k (k-th batch write fails)
          CanStop   \* TRUE: a termination signal may arrive

Ids == 1..N
Workers == 1..NW
Combs == 1..NC
Writers == 1..NR

VARIABLES kind, failAt, pend, wst, queue, cst, thr, outq, rst, store, lost,
          gate, stop, ready, abort, main, tot, mean, nwr, sig
vars == <<kind, failAt, pend, wst, queue, cst, thr, outq, rst, store, lost,
          gate, stop, ready, abort, main, tot, mean, nwr, sig>>

Range(s) == {s[i] : i \in 1..Len(s)}
SeqIds(n) == [i \in 1..n |-> i]

Init ==
  /\ kind \in [Ids -> Kinds]
  /\ failAt \in FailAts
  /\ pend = SeqIds(N)
  /\ wst = [w \in Workers |-> [pc |-> "idle", id |-> 0]]
  /\ queue = <<>>
  /\ cst = [c \in Combs |-> [pc |-> "chk", buf |-> <<>>]]
  /\ thr = {}
  /\ outq = <<>>
  /\ rst = [r \in Writers |-> [pc |-> "chk", cur |-> <<>>]]
  /\ store = [i \in Ids |-> 0]
  /\ lost = {}
  /\ gate = FALSE /\ stop = FALSE /\ ready = FALSE /\ abort = FALSE
  /\ main = "run" /\ tot = 0 /\ mean = 0 /\ nwr = 0 /\ sig = FALSE

\* ---------------------------------------------------------------- workers
WTake(w) ==
  /\ main = "run" \/ main = "drain"
  /\ wst[w].pc = "idle" /\ pend # <<>>
  /\ wst' = [wst EXCEPT ![w] = [pc |-> "wait", id |-> Head(pend)]]
  /\ pend' = Tail(pend)
  /\ UNCHANGED <<kind, failAt, queue, cst, thr, outq, rst, store, lost, gate, stop,
                 ready, abort, main, tot, mean, nwr, sig>>

\* the gate opens when writing has caught up; an aborted run processes nothing more
WGo(w) ==
  /\ wst[w].pc = "wait" /\ gate
  /\ IF abort
       THEN /\ lost' = lost \cup {wst[w].id}
            /\ wst' = [wst EXCEPT ![w] = [pc |-> "idle", id |-> 0]]
       ELSE /\ wst' = [wst EXCEPT ![w].pc = "work"] /\ UNCHANGED lost
  /\ UNCHANGED <<kind, failAt, pend, queue, cst, thr, outq, rst, store, gate, stop,
                 ready, abort, main, tot, mean, nwr, sig>>

\* "ok": result; "skip"/"fail": an empty marker; "none": reader found nothing; "bad": malformed
WPut(w) ==
  /\ wst[w].pc = "work"
  /\ LET i == wst[w].id IN
     queue' = IF kind[i] = "none" THEN queue
              ELSE Append(queue, IF kind[i] \in {"ok", "bad"} THEN i ELSE 0)
  /\ wst' = [wst EXCEPT ![w] = [pc |-> "idle", id |-> 0]]
  /\ UNCHANGED <<kind, failAt, pend, cst, thr, outq, rst, store, lost, gate, stop,
                 ready, abort, main, tot, mean, nwr, sig>>

\* -------------------------------------------------------------- combiners
CChk(c) ==
  /\ cst[c].pc = "chk"
  /\ cst' = [cst EXCEPT ![c].pc =
               IF (stop /\ queue = <<>>) \/ abort THEN "join" ELSE "get"]
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, thr, outq, rst, store, lost, gate, stop,
                 ready, abort, main, tot, mean, nwr, sig>>

Flushed(c, buf) ==
  /\ cst' = [cst EXCEPT ![c] = [pc |-> "chk", buf |-> <<>>]]
  /\ thr' = IF buf = <<>> THEN thr ELSE thr \cup {[c |-> c, ids |-> buf]}

CGet(c) ==
  /\ cst[c].pc = "get" /\ queue # <<>>
  /\ queue' = Tail(queue)
  /\ tot' = tot + 1
  /\ LET v == Head(queue)
         ok == v # 0 /\ kind[IF v = 0 THEN 1 ELSE v] = "ok"
         buf == IF ok THEN Append(cst[c].buf, v) ELSE cst[c].buf IN
     /\ mean' = IF ok THEN mean + 1 ELSE mean
     /\ IF Len(buf) = Chunk THEN Flushed(c, buf)
        ELSE cst' = [cst EXCEPT ![c].buf = buf] /\ UNCHANGED thr
  /\ UNCHANGED <<kind, failAt, pend, wst, outq, rst, store, lost, gate, stop, ready,
                 abort, main, nwr, sig>>

CTimeout(c) ==
  /\ cst[c].pc = "get" /\ queue = <<>>
  /\ Flushed(c, cst[c].buf)
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, outq, rst, store, lost, gate, stop, ready,
                 abort, main, tot, mean, nwr, sig>>

TOut(t) ==
  /\ t \in thr
  /\ thr' = thr \ {t}
  /\ outq' = Append(outq, t.ids)
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, rst, store, lost, gate, stop, ready,
                 abort, main, tot, mean, nwr, sig>>

CExit(c) ==
  /\ cst[c].pc = "join" /\ \A t \in thr : t.c # c
  /\ cst' = [cst EXCEPT ![c].pc = "done"]
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, thr, outq, rst, store, lost, gate, stop,
                 ready, abort, main, tot, mean, nwr, sig>>

\* ---------------------------------------------------------------- writers
RChk(r) ==
  /\ rst[r].pc = "chk"
  /\ IF ready /\ outq = <<>>
       THEN rst' = [rst EXCEPT ![r].pc = "done"] /\ UNCHANGED gate
       ELSE IF abort       \* an aborted run must not leave anybody waiting at the gate
         THEN rst' = [rst EXCEPT ![r].pc = "done"] /\ gate' = TRUE
         ELSE rst' = [rst EXCEPT ![r].pc = "size"] /\ UNCHANGED gate
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, store, lost, stop, ready,
                 abort, main, tot, mean, nwr, sig>>

\* reading the length of the queue and moving the gate are two steps: others may be in between
RSize(r) ==
  /\ rst[r].pc = "size"
  /\ rst' = [rst EXCEPT ![r].pc = IF Len(outq) < Cache THEN "open" ELSE "shut"]
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, store, lost, gate, stop, ready,
                 abort, main, tot, mean, nwr, sig>>
RGate(r) ==
  /\ rst[r].pc \in {"open", "shut"}
  /\ gate' = (rst[r].pc = "open")
  /\ rst' = [rst EXCEPT ![r].pc = "get"]
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, store, lost, stop, ready,
                 abort, main, tot, mean, nwr, sig>>

RGet(r) ==
  /\ rst[r].pc = "get" /\ outq # <<>>
  /\ rst' = [rst EXCEPT ![r] = [pc |-> "write", cur |-> Head(outq)]]
  /\ outq' = Tail(outq)
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, store, lost, gate, stop, ready,
                 abort, main, tot, mean, nwr, sig>>

RTimeout(r) ==
  /\ rst[r].pc = "get" /\ outq = <<>>
  /\ rst' = [rst EXCEPT ![r].pc = "chk"]
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, store, lost, gate, stop,
                 ready, abort, main, tot, mean, nwr, sig>>

\* a write is atomic here (the lock); a failing write aborts the run
RWrite(r) ==
  /\ rst[r].pc = "write"
  /\ nwr' = nwr + 1
  /\ rst' = [rst EXCEPT ![r] = [pc |-> "chk", cur |-> <<>>]]
  /\ IF nwr + 1 = failAt
       THEN /\ abort' = TRUE
            /\ lost' = lost \cup Range(rst[r].cur) /\ UNCHANGED store
       ELSE /\ store' = [i \in Ids |-> IF i \in Range(rst[r].cur) THEN store[i] + 1 ELSE store[i]]
            /\ UNCHANGED <<abort, lost>>
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, gate, stop, ready, main,
                 tot, mean, sig>>

\* ------------------------------------------------------------------- main
PoolIdle == pend = <<>> /\ \A w \in Workers : wst[w].pc = "idle"
MJoinPool ==
  /\ main \in {"run", "drain"} /\ PoolIdle
  /\ main' = "stopping" /\ stop' = TRUE
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, rst, store, lost, gate,
                 ready, abort, tot, mean, nwr, sig>>
MJoinComb ==
  /\ main = "stopping" /\ \A c \in Combs : cst[c].pc = "done"
  /\ main' = "writing" /\ ready' = TRUE
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, rst, store, lost, gate,
                 stop, abort, tot, mean, nwr, sig>>
MJoinWriter ==
  /\ main = "writing" /\ \A r \in Writers : rst[r].pc = "done"
  /\ main' = "done" /\ abort' = TRUE
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, rst, store, lost, gate,
                 stop, ready, tot, mean, nwr, sig>>
\* termination signal while the pool is running
MSignal ==
  /\ CanStop /\ ~sig /\ main = "run"
  /\ sig' = TRUE /\ stop' = TRUE /\ abort' = TRUE /\ main' = "drain"
  /\ UNCHANGED <<kind, failAt, pend, wst, queue, cst, thr, outq, rst, store, lost, gate, ready,
                 tot, mean, nwr>>

Done == main = "done"
Stutter == Done /\ UNCHANGED vars

WStep(w) == WTake(w) \/ WGo(w) \/ WPut(w)
CStep(c) == CChk(c) \/ CGet(c) \/ CTimeout(c) \/ CExit(c)
RStep(r) == RChk(r) \/ RSize(r) \/ RGate(r) \/ RGet(r) \/ RTimeout(r) \/ RWrite(r)
MStep == MJoinPool \/ MJoinComb \/ MJoinWriter
Next == \/ \E w \in Workers : WStep(w)
        \/ \E c \in Combs : CStep(c)
        \/ \E t \in thr : TOut(t)
        \/ \E r \in Writers : RStep(r)
        \/ MStep \/ MSignal \/ Stutter

Fair == /\ \A w \in Workers : WF_vars(WStep(w))
        /\ \A c \in Combs : WF_vars(CStep(c)) /\ SF_vars(CGet(c))
        /\ \A c \in Combs : WF_vars(\E t \in thr : t.c = c /\ TOut(t))
        /\ \A r \in Writers : WF_vars(RStep(r)) /\ SF_vars(RGet(r))
        /\ WF_vars(MStep)
Spec == Init /\ [][Next]_vars /\ Fair

\* ------------------------------------------------------------- properties
Oks == {i \in Ids : kind[i] = "ok"}
InFlight == {wst[w].id : w \in {x \in Workers : wst[x].pc \in {"wait", "work"}}}
            \cup Range(pend) \cup (Range(queue) \ {0})
            \cup UNION {Range(cst[c].buf) : c \in Combs}
            \cup UNION {Range(t.ids) : t \in thr}
            \cup UNION {Range(outq[k]) : k \in 1..Len(outq)}
            \cup UNION {Range(rst[r].cur) : r \in Writers}

TypeOK == /\ main \in {"run", "drain", "stopping", "writing", "done"}
          /\ tot \in 0..N /\ mean \in 0..N
AtMostOnce == \A i \in Ids : store[i] <= 1
OnlyOk == \A i \in Ids : store[i] > 0 => kind[i] = "ok"
NoLoss == \A i \in Oks : store[i] = 1 \/ i \in InFlight \/ i \in lost
NoLossWithoutFault == ~abort => lost = {}
Complete == (Done /\ nwr # failAt /\ ~sig /\ (failAt = 0 \/ nwr < failAt))
              => \A i \in Ids : store[i] = IF kind[i] = "ok" THEN 1 ELSE 0
DrainComb == \A c \in Combs : cst[c].pc = "done" /\ ~abort => (stop /\ PoolIdle)
Drained == (ready /\ ~sig /\ (failAt = 0 \/ nwr < failAt))
              => queue = <<>> /\ thr = {} /\ \A c \in Combs : cst[c].buf = <<>>
DrainWrite == (Done /\ ~sig /\ (failAt = 0 \/ nwr < failAt)) => outq = <<>>
Counters == mean <= tot /\ tot <= N
CountersEnd == (Done /\ ~sig /\ (failAt = 0 \/ nwr < failAt))
                 => /\ mean = Cardinality(Oks)
                    /\ tot = Cardinality({i \in Ids : kind[i] # "none"})
\* while the gate is shut nobody passes it (one writer: the gate is shut exactly while behind)
Throttle == [][\A w \in Workers : (wst[w].pc = "wait" /\ wst'[w].pc = "work") => gate]_vars
Gated == (NR = 1 /\ rst[1].pc = "get" /\ ~abort) => (gate \/ Len(outq) >= Cache)
Termination == <>Done
=============================================================================
