-------------------------------- MODULE AioMC --------------------------------
EXTENDS Aio
CONSTANTS N
Bodies == {<<>>, <<"s", "g">>, <<"g", "s">>, <<"ig", "y", "s">>, <<"y", "raise">>}
VARIABLES begun, log
mvars == <<cmp, tok, begun, log>>
Init == AInit(N, 1) /\ begun = [i \in 1..N |-> 0] /\ log = [i \in 1..N |-> <<>>]
Same == UNCHANGED <<begun, log>>
Next == \E i \in 1..N :
  \/ \E b \in Bodies, t \in {0, 1} : (Start(i, b, t) \/ Refuse(i, b, t)) /\ Same
  \/ Begin(i) /\ begun' = [begun EXCEPT ![i] = @ + 1] /\ UNCHANGED log
  \/ \E n \in 1..3 : Reach(i, n) /\ log' = [log EXCEPT ![i] = Append(@, n)] /\ UNCHANGED begun
  \/ \E n \in 1..3 : (Resume(i, n) \/ Cancelled(i, n)) /\ Same
  \/ On(i) /\ cmp[i].st = "wait" /\ Gate(Stm(i)) /\ cmp[i].pc \notin cmp[i].open /\ Open(i, cmp[i].pc) /\ Same
  \/ \E r \in {"ok", "raise", "cancelled"} : End(i, r) /\ Same
  \/ \E far \in BOOLEAN : tok[1] = "live" /\ XBegin(1, far) /\ Same
  \/ tok[1] = "cancelling" /\ XEnd(1) /\ Same
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Once == \A i \in 1..N : begun[i] <= 1 /\ \A k \in 1..Len(log[i]) : log[i][k] = k
OnlyByToken == \A i \in 1..N : (On(i) /\ cmp[i].t = 0) => ~cmp[i].creq
=============================================================================
