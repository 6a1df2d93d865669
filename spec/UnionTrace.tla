----------------------------- MODULE UnionTrace -----------------------------
EXTENDS Union
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
DeclData == ndJsonDeserialize("decls.ndjson")
INSTANCE StoreTrace WITH Eval <- UnionEval, Trace <- TraceData
=============================================================================
