---------------------------- MODULE ComposeTrace ----------------------------
EXTENDS Compose
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
INSTANCE StoreTrace WITH Eval <- ComposeEval, Trace <- TraceData
=============================================================================
