------------------------------ MODULE ContTrace ------------------------------
(* from_continuations: the first continuation called decides; all others change nothing. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos, first, wait
tvars == <<tr, pos, first, wait>>
H == Traces[tr].h
None == <<"none", "">>
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ first = None /\ wait = [w \in 1..3 |-> "idle"]
Ev(e) ==
  CASE e.e = "call" -> first' = (IF first = None THEN <<e.k, e.v>> ELSE first) /\ UNCHANGED wait
    [] e.e = "wb" -> wait[e.w] = "idle" /\ wait' = [wait EXCEPT ![e.w] = "waiting"] /\ UNCHANGED first
    \* cancelling the caller that awaits: it ends cancelled, unless the outcome was there before
    [] e.e = "wc" -> wait' = [wait EXCEPT ![e.w] = IF @ = "waiting" THEN "cancelling" ELSE @] /\ first' = (IF first = None THEN <<"cancel", "">> ELSE first)
    [] e.e = "we" -> /\ \/ wait[e.w] = "waiting" /\ first = <<e.k, e.v>>
                        \/ wait[e.w] = "cancelling" /\ (<<e.k, e.v>> = <<"cancel", "">> \/ <<e.k, e.v>> = first)
                     /\ wait' = [wait EXCEPT ![e.w] = "done"] /\ UNCHANGED first
    [] e.e = "quiet" -> (\A w \in 1..3 : wait[w] = "cancelling" => FALSE) /\ (first # None => \A w \in 1..3 : wait[w] # "waiting") /\ UNCHANGED <<first, wait>>
    [] OTHER -> FALSE
Next == pos <= Len(H) /\ Ev(H[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_tvars
Accept == pos <= Len(H) \/ PrintT("@" \o ToJson([accept |-> tr]))
=============================================================================
