------------------------------ MODULE MapCost ------------------------------
(***************************************************************************)
(* Validates recorded costs.  An event gives the operation, the peak       *)
(* number of bindings of the map's history and the number of key           *)
(* comparisons it made: at most two per level of the tallest tree the      *)
(* height tolerance permits at that size.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE l
Trace == ndJsonDeserialize("traces.ndjson")
TraceData == Trace
CONSTANT Events

Tolerance == 2
(* NMinT[h + 3]: fewest bindings of a tree of height h; 60 levels are far more than needed *)
RECURSIVE Tab(_)
Tab(s) == IF s[Len(s)] > 10000000 THEN s ELSE Tab(Append(s, 1 + s[Len(s)] + s[Len(s) - Tolerance]))
NMinT == Tab(<<0, 0, 0, 1>>)          \* heights -2, -1, 0, 1
HMax(n) == CHOOSE h \in 0..(Len(NMinT) - 4) : NMinT[h + 3] <= n /\ NMinT[h + 4] > n
Bound(n) == 2 * HMax(n) + 2

Init == l = 1
Next == /\ l <= Len(Events)
        /\ l' = l + 1
        /\ LET e == Events[l] IN
           e.compares <= Bound(e.peak) \/ PrintT("@" \o ToJson([mismatch |-> "too many comparisons", line |-> l, bound |-> Bound(e.peak)]))
Spec == Init /\ [][Next]_l
Done == l <= Len(Events) \/ PrintT("@" \o ToJson([validated |-> l - 1]))
=============================================================================
