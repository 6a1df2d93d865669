------------------------------ MODULE AioTrace ------------------------------
EXTENDS Aio, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<cmp, tok, tr, pos>>
H == Traces[tr].h
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ AInit(Traces[tr].n, Traces[tr].toks)
Ev(e) ==
  CASE e.e = "st" -> Start(e.i, e.body, e.t)
    [] e.e = "sr" -> Refuse(e.i, e.body, e.t)
    [] e.e = "b" -> Begin(e.i)
    [] e.e = "at" -> Reach(e.i, e.n)
    [] e.e = "op" -> Open(e.i, e.n)
    [] e.e = "go" -> Resume(e.i, e.n)
    [] e.e = "cx" -> Cancelled(e.i, e.n)
    [] e.e = "end" -> End(e.i, e.r)
    [] e.e = "xb" -> XBegin(e.t, e.far)
    [] e.e = "xe" -> XEnd(e.t)
    [] e.e = "sleep" -> e.d = e.t /\ UNCHANGED avars      \* a sleeper wakes when its time has come
    [] e.e = "quiet" -> QuietOK /\ UNCHANGED avars
    [] OTHER -> FALSE
Next == pos <= Len(H) /\ Ev(H[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_tvars
Accept == pos <= Len(H) \/ PrintT("@" \o ToJson([accept |-> tr]))
=============================================================================
