------------------------------ MODULE SeqTrace ------------------------------
EXTENDS SeqSpec
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
INSTANCE StoreTrace WITH Eval <- SeqEval, Trace <- TraceData
=============================================================================
