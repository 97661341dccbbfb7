SPECIFICATION Spec
CONSTANTS N = 3 NW = 2 NC = 1 NR = 1 Chunk = 2 Cache = 1
 Kinds = {"ok", "fail"} FailAts = {0, 1, 2} CanStop = TRUE
INVARIANTS TypeOK AtMostOnce OnlyOk NoLoss NoLossWithoutFault Complete DrainComb Drained DrainWrite Counters CountersEnd Gated
PROPERTIES Termination Throttle
