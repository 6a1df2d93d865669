------------------------------- MODULE Mailbox -------------------------------
(* A mailbox: a queue of messages, posts (also from other threads), receives that wait for a message and may be         *)
(* cancelled, requests whose message carries a reply channel, and a cancellation token.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
  q,        \* messages that were posted and not handed over
  post,     \* post[p]: state of post operation p
  rcv,      \* rcv[r]: state of receive r
  tok,      \* the token: "live", "cancelling" or "cancelled"
  grace,    \* receives that a delivery already under way may still serve although the token is cancelled by now
  poked,    \* the mailbox was used after its token was cancelled
  chan      \* chan[k]: first reply of request k and state of the caller that awaits it
xvars == <<q, post, rcv, tok, grace, poked, chan>>
Live == tok # "cancelled"
RIdle == [st |-> "idle", creq |-> FALSE]
KIdle == [has |-> FALSE, val |-> 0, st |-> "idle", creq |-> FALSE]
XInit(Posts, Recvs, Reqs) ==
  /\ q = <<>> /\ post = [p \in Posts |-> [st |-> "idle"]] /\ rcv = [r \in Recvs |-> RIdle]
  /\ tok = "live" /\ grace = {} /\ poked = FALSE /\ chan = [k \in Reqs |-> KIdle]
(* -- posting: the message enters the queue at one moment between the begin and the end of the call -- *)
PBegin(p, m) == post[p].st = "idle" /\ post' = [post EXCEPT ![p] = [st |-> "begun", m |-> m]] /\ UNCHANGED <<q, rcv, tok, poked, chan, grace>>
PStep(p) == post[p].st = "begun" /\ post' = [post EXCEPT ![p].st = "in"] /\ q' = Append(q, post[p].m) /\ UNCHANGED <<rcv, tok, poked, chan, grace>>
PEnd(p) == post[p].st = "in" /\ post' = [post EXCEPT ![p].st = "done"] /\ poked' = (poked \/ ~Live) /\ UNCHANGED <<q, rcv, tok, chan, grace>>
(* -- receiving -- *)
Pending(r) == rcv[r].st \in {"waiting", "got"}
(* a receive is refused while another one is waiting; when that one is on its way out both outcomes are possible *)
RBegin(r) ==
  /\ rcv[r].st = "idle"
  /\ LET firm == \E o \in DOMAIN rcv : o # r /\ rcv[o].st = "waiting" /\ ~rcv[o].creq
         some == \E o \in DOMAIN rcv : o # r /\ Pending(o)
     IN \/ some /\ rcv' = [rcv EXCEPT ![r].st = "second"] /\ UNCHANGED poked
        \/ (~firm \/ tok # "live") /\ rcv' = [rcv EXCEPT ![r].st = "waiting"] /\ poked' = (poked \/ ~Live)
  /\ UNCHANGED <<q, post, tok, chan, grace>>
Hand(r) ==
  /\ rcv[r].st = "waiting" /\ q # <<>> /\ (Live \/ r \in grace)
  /\ rcv' = [rcv EXCEPT ![r] = [st |-> "got", creq |-> @.creq, m |-> Head(q)]] /\ q' = Tail(q)
  /\ UNCHANGED <<post, tok, poked, chan, grace>>
RCancel(r) == rcv' = [rcv EXCEPT ![r].creq = TRUE] /\ UNCHANGED <<q, post, tok, poked, chan, grace>>
RGot(r, m) == rcv[r].st = "got" /\ rcv[r].m = m /\ rcv' = [rcv EXCEPT ![r] = [st |-> "done", creq |-> FALSE]] /\ UNCHANGED <<q, post, tok, poked, chan, grace>>
RRefused(r) == rcv[r].st = "second" /\ rcv' = [rcv EXCEPT ![r] = [st |-> "done", creq |-> FALSE]] /\ UNCHANGED <<q, post, tok, poked, chan, grace>>
(* a cancelled receive gives back what it was handed *)
RCancelled(r) ==
  /\ Pending(r) \/ rcv[r].st = "second"
  /\ rcv[r].creq \/ (tok # "live" /\ Pending(r))
  /\ q' = IF rcv[r].st = "got" THEN <<rcv[r].m>> \o q ELSE q
  /\ rcv' = [rcv EXCEPT ![r] = [st |-> "done", creq |-> FALSE]]
  /\ UNCHANGED <<post, tok, poked, chan, grace>>
(* -- the token -- *)
TBegin == tok = "live" /\ tok' = "cancelling" /\ UNCHANGED <<q, post, rcv, poked, chan, grace>>
(* `far`: by another thread, while the mailbox may be in the middle of a delivery *)
TEnd(far) == tok = "cancelling" /\ tok' = "cancelled" /\ grace' = (IF far THEN {r \in DOMAIN rcv : Pending(r)} ELSE {}) /\ UNCHANGED <<q, post, rcv, poked, chan>>
(* -- requests -- *)
Reply(k, v) == chan' = [chan EXCEPT ![k] = IF @.has THEN @ ELSE [@ EXCEPT !.has = TRUE, !.val = v]] /\ UNCHANGED <<q, post, rcv, tok, poked, grace>>
WBegin(k) == chan[k].st = "idle" /\ chan' = [chan EXCEPT ![k].st = "waiting"] /\ UNCHANGED <<q, post, rcv, tok, poked, grace>>
WCancel(k) == chan' = [chan EXCEPT ![k].creq = TRUE] /\ UNCHANGED <<q, post, rcv, tok, poked, grace>>
WGot(k, v) == chan[k].st = "waiting" /\ chan[k].has /\ chan[k].val = v /\ chan' = [chan EXCEPT ![k].st = "done"] /\ UNCHANGED <<q, post, rcv, tok, poked, grace>>
WCancelled(k) == chan[k].st = "waiting" /\ chan[k].creq /\ chan' = [chan EXCEPT ![k].st = "done"] /\ UNCHANGED <<q, post, rcv, tok, poked, grace>>
(* -- nothing can happen any more: nobody waits in vain.  `held`: cancelling the token ends all receives -- *)
QuietOK(held) ==
  /\ \A p \in DOMAIN post : post[p].st \in {"idle", "done"}
  /\ \A r \in DOMAIN rcv : Pending(r) =>
       /\ rcv[r].st = "waiting" /\ ~rcv[r].creq
       /\ Live => q = <<>>
       /\ ~Live => (~poked /\ ~held)
  /\ \A k \in DOMAIN chan : chan[k].st = "waiting" => ~chan[k].has /\ ~chan[k].creq
=============================================================================
