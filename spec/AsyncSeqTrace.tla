--------------------------- MODULE AsyncSeqTrace ---------------------------
EXTENDS SeqSpec
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
AEval(op, a) == IF op = "repeat" THEN R(List([i \in 1..a[2][2] |-> a[1]])) ELSE SeqEval(op, a)
INSTANCE StoreTrace WITH Eval <- AEval, Trace <- TraceData
=============================================================================
