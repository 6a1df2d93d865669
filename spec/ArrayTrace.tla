----------------------------- MODULE ArrayTrace -----------------------------
EXTENDS ArraySpec
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
IsArr(t) == t[1] = "arr" \/ t[1] = "list"
INSTANCE HeapTrace WITH Eval <- ArrEval, Trace <- TraceData, IsRef <- IsArr
=============================================================================
