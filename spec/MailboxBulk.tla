---------------------------- MODULE MailboxBulk ----------------------------
(* Mailbox.tla for long histories of posts that do not overlap: messages are numbered in the order of posting, so the  *)
(* queue is always an interval of numbers.  Requests are numbered as well; ans[k] is the first reply (0: none yet).      *)
EXTENDS Naturals, Sequences, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos, lo, hi, ans, got
vars == <<tr, pos, lo, hi, ans, got>>
H == Traces[tr].h
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ lo = 0 /\ hi = 0 /\ ans = [k \in 1..Traces[tr].reqs |-> 0] /\ got = 0
Ev(e) ==
  CASE e.e = "p" -> hi' = hi + 1 /\ e.m = hi' /\ UNCHANGED <<lo, ans, got>>
    [] e.e = "r" -> lo < hi /\ lo' = lo + 1 /\ e.m = lo' /\ UNCHANGED <<hi, ans, got>>
    [] e.e = "a" -> ans' = (IF ans[e.k] = 0 THEN [ans EXCEPT ![e.k] = e.v] ELSE ans) /\ UNCHANGED <<lo, hi, got>>
    [] e.e = "w" -> ans[e.k] = e.v /\ e.v # 0 /\ got' = got + 1 /\ UNCHANGED <<lo, hi, ans>>
    \* nothing moves any more and nothing is held back: all was received, and every answered request got its answer
    [] e.e = "end" -> lo = hi /\ got = Traces[tr].answered /\ UNCHANGED <<lo, hi, ans, got>>
    [] OTHER -> FALSE
Next == pos <= Len(H) /\ Ev(H[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Accept == pos <= Len(H) \/ PrintT("@" \o ToJson([accept |-> tr]))
=============================================================================
