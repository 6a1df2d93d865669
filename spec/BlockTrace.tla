----------------------------- MODULE BlockTrace -----------------------------
EXTENDS BlockSpec
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
INSTANCE StoreTrace WITH Eval <- BlockEval, Trace <- TraceData
=============================================================================
