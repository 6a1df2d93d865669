------------------------------ MODULE DispTrace ------------------------------
(* Which recorded histories are behaviours of Disp?  The claims and looks are not recorded: TLC searches for them. *)
EXTENDS Disp, Json, TLCExt, IOUtils
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<owner, op, tr, pos>>
H == Traces[tr].h
MaxO == Traces[tr].ops
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ owner = [x \in 1..Traces[tr].objs |-> 0] /\ op = [o \in 1..Traces[tr].ops |-> Idle]
Ev(e) ==
  CASE e.e = "db" -> DBegin(e.o, e.xs)
    [] e.e = "de" -> DEnd(e.o, e.r)
    [] e.e = "ab" -> ABegin(e.o, e.x)
    [] e.e = "ae" -> AEnd(e.o, e.x, e.r)
    [] e.e = "nb" -> NBegin(e.o, e.x)
    [] e.e = "ne" -> NEnd(e.o, e.r)
    [] OTHER -> FALSE
Next ==
  \/ pos <= Len(H) /\ Ev(H[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
  \/ pos <= Len(H) /\ (\E o \in 1..MaxO : DClaim(o) \/ NLook(o)) /\ UNCHANGED <<tr, pos>>
Spec == Init /\ [][Next]_tvars
Accept == pos <= Len(H) \/ PrintT("@" \o ToJson([accept |-> tr]))
=============================================================================
