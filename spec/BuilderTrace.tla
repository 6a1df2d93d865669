---------------------------- MODULE BuilderTrace ----------------------------
(* recorded runs of the real decorated bodies: each must be the run of the machine *)
EXTENDS Builder
Trace == ndJsonDeserialize("traces.ndjson")
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l]
               r == Run(e.kind, e.prog, 0, e.depth)
           IN  \/ r.ret = e.ret /\ r.log = e.log
               \/ ~(r.ret = e.ret /\ r.log = e.log) /\ PrintT("@" \o ToJson([mismatch |-> "the run differs", line |-> l, expected |-> r]))
Spec == Init /\ [][Next]_l
Done == l <= Len(Trace) \/ PrintT("@" \o ToJson([validated |-> l - 1]))
=============================================================================
