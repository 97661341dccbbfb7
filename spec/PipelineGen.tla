---------------------------- MODULE PipelineGen ----------------------------
(* Behaviours of Pipeline with their action labels, for replay into the real *)
(* processing pool under a controlled scheduler.                             *)
EXTENDS Pipeline, Json
VARIABLE hist
L(k, n, a) == hist' = Append(hist, <<k, n, a>>)
GInit == Init /\ hist = <<>>
GNext ==
  \/ \E w \in Workers : \/ WTake(w) /\ L("W", w, "take")
                        \/ WGo(w) /\ L("W", w, "go")
                        \/ WPut(w) /\ L("W", w, "put")
  \/ \E c \in Combs : \/ CChk(c) /\ L("C", c, "chk")
                      \/ CGet(c) /\ L("C", c, "get")
                      \/ CTimeout(c) /\ L("C", c, "timeout")
                      \/ CExit(c) /\ L("C", c, "exit")
  \/ \E t \in thr : TOut(t) /\ L("T", t.c, "out")
  \/ \E r \in Writers : \/ RChk(r) /\ L("R", r, "chk")
                        \/ RSize(r) /\ L("R", r, "size")
                        \/ RGate(r) /\ L("R", r, "gate")
                        \/ RGet(r) /\ L("R", r, "get")
                        \/ RTimeout(r) /\ L("R", r, "timeout")
                        \/ RWrite(r) /\ L("R", r, "write")
  \/ MJoinPool /\ L("M", 0, "join")
  \/ MJoinComb /\ L("M", 0, "join")
  \/ MJoinWriter /\ L("M", 0, "join")
  \/ MSignal /\ L("M", 0, "signal")
\* repeated idle time-outs of one process teach nothing new
Interesting == Len(hist) < 4 \/ ~(\E k \in {"C", "R"} : \E n \in 1..3 :
   LET m == Len(hist) IN /\ hist[m] = <<k, n, "timeout">> /\ hist[m-2] = <<k, n, "timeout">>)
Emit == main = "done" =>
   PrintT(<<"BEH", ToJson([kind |-> kind, failAt |-> failAt, sig |-> sig, hist |-> hist])>>)
=============================================================================
