------------------------------- MODULE ContGen -------------------------------
(* D/F/C call the success/failure/cancellation continuation, first inside the callback (before "|"), then from outside; *)
(* W await, V cancel that await, T one turn of the loop, I until nothing moves.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxIn, MaxOut
VARIABLES ins, outs
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Init == ins \in UNION {[1..n -> {"D", "F", "C"}] : n \in 0..MaxIn} /\ outs = <<>>
Useful(c) == /\ c = "W" => Count(outs, "W") < 2
             /\ c = "V" => Count(outs, "W") = 1 /\ Count(outs, "V") = 0
             /\ c \in {"T", "I"} => Count(outs, "W") > 0 /\ outs[Len(outs)] # "I" /\ (c = "I" => outs[Len(outs)] # "T")
Next == Len(outs) < MaxOut /\ (\E c \in {"D", "F", "C", "W", "V", "T", "I"} : Useful(c) /\ outs' = Append(outs, c)) /\ UNCHANGED ins
Spec == Init /\ [][Next]_<<ins, outs>>
Emit == PrintT("@" \o ToJson([ins |-> ins, outs |-> outs]))
=============================================================================
