------------------------------ MODULE MailboxMC ------------------------------
(* The design: every interleaving of a few posts, receives, cancellations, requests and replies. *)
EXTENDS Mailbox
CONSTANTS Posts, Recvs, Reqs
VARIABLES sent,    \* messages in the order in which they entered the queue
          got,     \* <<receive, message>> in the order of return
          calm,    \* nothing was cancelled so far
          replies  \* replies given, per request, in order
mvars == <<q, post, rcv, tok, grace, poked, chan, sent, got, calm, replies>>
Init == XInit(Posts, Recvs, Reqs) /\ sent = <<>> /\ got = <<>> /\ calm = TRUE /\ replies = [k \in Reqs |-> <<>>]
Same == UNCHANGED <<sent, got, replies>>
Internal == (\E r \in Recvs : Hand(r) /\ Same) \/ (\E p \in Posts : PStep(p) /\ sent' = Append(sent, p) /\ UNCHANGED <<got, replies>>)
Return == \/ \E r \in Recvs, m \in Posts : RGot(r, m) /\ got' = Append(got, <<r, m>>) /\ UNCHANGED <<sent, replies>>
          \/ \E r \in Recvs : (RRefused(r) \/ RCancelled(r)) /\ Same
          \/ \E k \in Reqs, v \in {0, 1} : WGot(k, v) /\ Same
          \/ \E k \in Reqs : WCancelled(k) /\ Same
          \/ \E p \in Posts : PEnd(p) /\ Same
          \/ (\E far \in BOOLEAN : TEnd(far)) /\ Same
Env == \/ \E p \in Posts : PBegin(p, p) /\ Same
       \/ \E r \in Recvs : (RBegin(r) \/ (Pending(r) /\ ~rcv[r].creq /\ RCancel(r))) /\ Same
       \/ TBegin /\ Same
       \/ \E k \in Reqs : (WBegin(k) \/ (chan[k].st = "waiting" /\ ~chan[k].creq /\ WCancel(k))) /\ Same
       \/ \E k \in Reqs, v \in {0, 1} : Len(replies[k]) < 2 /\ Reply(k, v) /\ replies' = [replies EXCEPT ![k] = Append(@, v)] /\ UNCHANGED <<sent, got>>
Next == (Internal \/ Return \/ Env) /\ calm' = (calm /\ tok' = "live" /\ \A r \in Recvs : ~rcv'[r].creq)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Internal /\ Next) /\ WF_mvars(Return /\ Next)
Held == {rcv[r].m : r \in {x \in Recvs : rcv[x].st = "got"}}
InQ == {q[i] : i \in 1..Len(q)}
Returned == {got[i][2] : i \in 1..Len(got)}
(* every message that entered is in exactly one place *)
NoLoss == /\ Cardinality(InQ) + Cardinality(Held) + Len(got) = Len(sent)
          /\ InQ \cup Held \cup Returned = {sent[i] : i \in 1..Len(sent)}
          /\ Cardinality(InQ) = Len(q)
(* in posting order, as long as no receive was cancelled *)
Fifo == calm =>
        \A i, j \in 1..Len(q) : i < j => (CHOOSE a \in 1..Len(sent) : sent[a] = q[i]) < (CHOOSE a \in 1..Len(sent) : sent[a] = q[j])
FirstWins == \A k \in Reqs : chan[k].has => chan[k].val = replies[k][1]
NothingAfterCancel == [][(~Live /\ \E r \in Recvs \ grace : rcv[r].st # "got" /\ rcv'[r].st = "got") => FALSE]_mvars
(* a waiting receive is served *)
Served == \A r \in Recvs : (rcv[r].st = "waiting" /\ ~rcv[r].creq /\ q # <<>>) ~> (rcv[r].st # "waiting" \/ q = <<>> \/ ~Live)
=============================================================================
