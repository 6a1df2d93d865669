----------------------------- MODULE FuncTrace -----------------------------
EXTENDS Func
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
INSTANCE StoreTrace WITH Eval <- FuncEval, Trace <- TraceData
=============================================================================
