----------------------------- MODULE CancelTrace -----------------------------
EXTENDS Cancel, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<cancelled, live, gone, taken, op, tr, pos>>
H == Traces[tr].h
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ CInit(1..Traces[tr].ops)
Ev(e) ==
  CASE e.e = "rb" -> RBegin(e.o, e.k, e.f)
    [] e.e = "re" -> REnd(e.o, e.r)
    [] e.e = "ub" -> UBegin(e.o, e.k)
    [] e.e = "ue" -> UEnd(e.o, e.r)
    [] e.e = "xb" -> XBegin(e.o)
    [] e.e = "xe" -> XEnd(e.o, e.r)
    [] e.e = "fb" -> IF e.o = 0 THEN FALSE ELSE XCall(e.o, e.f)
    [] e.e = "fe" -> XBack(e.o, e.f)
    [] e.e = "qb" -> QBegin(e.o)
    [] e.e = "qe" -> QEnd(e.o, e.r)
    [] e.e = "none" -> e.r = "ok" /\ UNCHANGED cvars   \* something done with the token that is never cancelled
    [] OTHER -> FALSE
Next ==
  \/ pos <= Len(H) /\ Ev(H[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
  \/ pos <= Len(H) /\ (\E o \in 1..Traces[tr].ops : Steps(o)) /\ UNCHANGED <<tr, pos>>
Spec == Init /\ [][Next]_tvars
Accept == pos <= Len(H) \/ PrintT("@" \o ToJson([accept |-> tr]))
=============================================================================
