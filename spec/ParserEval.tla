----------------------------- MODULE ParserEval -----------------------------
(***************************************************************************)
(* Expected outcomes of the (parser, input, position) cases in             *)
(* cases.ndjson: [p, s, i] with s a sequence of characters; with `unit`    *)
(* and `n`, the input is s[1..n] = unit repeated n times, then s.           *)
(***************************************************************************)
EXTENDS Parser
VARIABLES i
Cases == ndJsonDeserialize("cases.ndjson")
Input(c) == [k \in 1..(c.n * Len(c.unit)) |-> c.unit[((k - 1) % Len(c.unit)) + 1]] \o c.s
Init == i \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Emit == LET c == Cases[i] IN PrintT("@" \o ToJson([id |-> i, r |-> Parse(c.p, Input(c), c.i)]))
=============================================================================
