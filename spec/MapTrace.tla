------------------------------ MODULE MapTrace ------------------------------
EXTENDS MapSpec
VARIABLES l, regs, skip
TraceData == ndJsonDeserialize("traces.ndjson")
(* only the calls of OrderedOps are recorded; a raise says nothing about further calls *)
TEval(op, a) == LET e == MapEval(op, a) IN
  IF op \in OrderedOps THEN e
  ELSE IF op \in OnceEachOps /\ ~IsRaise(e.ret) THEN e
  ELSE [ret |-> e.ret, calls |-> <<>>]
INSTANCE StoreTrace WITH Eval <- TEval, Trace <- TraceData
=============================================================================
