---------------------------- MODULE RailwayTrace ----------------------------
EXTENDS Railway
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
INSTANCE StoreTrace WITH Eval <- RailwayEval, Trace <- TraceData
=============================================================================
