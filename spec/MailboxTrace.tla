---------------------------- MODULE MailboxTrace ----------------------------
EXTENDS Mailbox, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<q, post, rcv, tok, grace, poked, chan, tr, pos>>
H == Traces[tr].h
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ XInit(1..Traces[tr].posts, 1..Traces[tr].recvs, 1..Traces[tr].reqs)
Ev(e) ==
  CASE e.e = "pb" -> PBegin(e.p, e.m)
    [] e.e = "pe" -> PEnd(e.p)
    [] e.e = "rb" -> RBegin(e.r)
    [] e.e = "rc" -> RCancel(e.r)
    [] e.e = "re" -> (CASE e.o = "msg" -> RGot(e.r, e.m) [] e.o = "refused" -> RRefused(e.r) [] e.o = "cancelled" -> RCancelled(e.r) [] OTHER -> FALSE)
    [] e.e = "tb" -> TBegin
    [] e.e = "te" -> TEnd(e.far)
    [] e.e = "rp" -> Reply(e.k, e.v)
    [] e.e = "wb" -> WBegin(e.k)
    [] e.e = "wc" -> WCancel(e.k)
    [] e.e = "we" -> (CASE e.o = "val" -> WGot(e.k, e.v) [] e.o = "cancelled" -> WCancelled(e.k) [] OTHER -> FALSE)
    [] e.e = "quiet" -> QuietOK(Traces[tr].held) /\ grace' = {} /\ UNCHANGED <<q, post, rcv, tok, poked, chan>>
    [] e.e = "end" -> (Live => q = <<>>) /\ UNCHANGED xvars
    [] OTHER -> FALSE
Next ==
  \/ pos <= Len(H) /\ Ev(H[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
  \/ pos <= Len(H) /\ ((\E p \in 1..Traces[tr].posts : PStep(p)) \/ (\E r \in 1..Traces[tr].recvs : Hand(r))) /\ UNCHANGED <<tr, pos>>
Spec == Init /\ [][Next]_tvars
Accept == pos <= Len(H) \/ PrintT("@" \o ToJson([accept |-> tr]))
=============================================================================
