----------------------------- MODULE PrintTrace -----------------------------
EXTENDS Print
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
INSTANCE StoreTrace WITH Eval <- PrintEval, Trace <- TraceData
=============================================================================
