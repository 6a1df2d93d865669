---------------------------- MODULE TailRecEval ----------------------------
(* Expected runs of the programs in cases.ndjson: [P, f]. *)
EXTENDS TailRec
VARIABLES i
Cases == ndJsonDeserialize("cases.ndjson")
Init == i \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Emit == LET s == Run(Cases[i].P, Start(Cases[i].f, 1)) IN PrintT("@" \o ToJson([id |-> i, log |-> s.log, ret |-> s.ret]))
=============================================================================
