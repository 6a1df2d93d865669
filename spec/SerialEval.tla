----------------------------- MODULE SerialEval -----------------------------
(* Expected dumps and validation outcomes for the cases in cases.ndjson: [T, v, damage]. *)
EXTENDS Serial
VARIABLES i
Cases == ndJsonDeserialize("cases.ndjson")
Init == i \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Law == RoundTrip(Cases[i].T, Cases[i].v)
Emit == PrintT("@" \o ToJson([id |-> i, o |-> Outcome(Cases[i].T, Cases[i].v, Cases[i].damage)]))
=============================================================================
