--------------------------------- MODULE Aio ---------------------------------
(* Computations started in the event loop, and the continuations of from_continuations.                                *)
(* A computation is a list of statements: "s" a plain step, "y" one that lets the loop take a turn, "g" one that waits  *)
(* at its gate, "ig" the same surviving a cancellation, "raise" one that fails.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
  cmp,      \* cmp[i]: state of computation i
  tok       \* tok[t]: "live", "cancelling" or "cancelled"
avars == <<cmp, tok>>
Waits(s) == s \in {"y", "g", "ig"}
Gate(s) == s \in {"g", "ig"}
AInit(n, k) == cmp = [i \in 1..n |-> [st |-> "none"]] /\ tok = [t \in 1..k |-> "live"]
(* t = 0: no token, or one that is never cancelled *)
Rec(body, t, c) == [st |-> "ready", body |-> body, t |-> t, pc |-> 1, open |-> {}, creq |-> c, far |-> c, late |-> FALSE]
Start(i, body, t) ==
  /\ cmp[i].st = "none"
  /\ \/ t # 0 /\ tok[t] # "live" /\ cmp' = [cmp EXCEPT ![i] = [st |-> "dead"]]
     \/ (IF t = 0 THEN TRUE ELSE tok[t] = "live") /\ cmp' = [cmp EXCEPT ![i] = Rec(body, t, FALSE)]
     \/ t # 0 /\ tok[t] = "cancelling" /\ cmp' = [cmp EXCEPT ![i] = Rec(body, t, TRUE)]
  /\ UNCHANGED tok
(* refused: only because the token is cancelled *)
Refuse(i, body, t) == cmp[i].st = "none" /\ t # 0 /\ tok[t] # "live" /\ cmp' = [cmp EXCEPT ![i] = [st |-> "dead"]] /\ UNCHANGED tok
On(i) == cmp[i].st \in {"ready", "run", "wait"}
(* the first thing a computation does; a cancelled one never gets there *)
Begin(i) == cmp[i].st = "ready" /\ (~cmp[i].creq \/ cmp[i].far) /\ cmp' = [cmp EXCEPT ![i].st = "run"] /\ UNCHANGED tok
Stm(i) == cmp[i].body[cmp[i].pc]
(* statement n is reached; a waiting one suspends the computation *)
Reach(i, n) ==
  /\ cmp[i].st = "run" /\ cmp[i].pc = n /\ n <= Len(cmp[i].body)
  /\ cmp' = [cmp EXCEPT ![i] = IF Waits(Stm(i)) THEN [@ EXCEPT !.st = "wait"] ELSE IF Stm(i) = "raise" THEN [@ EXCEPT !.st = "raise"] ELSE [@ EXCEPT !.pc = @ + 1]]
  /\ UNCHANGED tok
Open(i, n) == On(i) /\ cmp' = [cmp EXCEPT ![i].open = @ \cup {n}] /\ UNCHANGED tok
(* the wait is over; with a cancellation requested only if the gate had been opened first *)
Resume(i, n) ==
  /\ cmp[i].st = "wait" /\ cmp[i].pc = n
  /\ Gate(Stm(i)) => n \in cmp[i].open
  /\ ~cmp[i].creq \/ cmp[i].far \/ cmp[i].late
  /\ cmp' = [cmp EXCEPT ![i].st = "run", ![i].pc = @ + 1, ![i].late = FALSE]
  /\ UNCHANGED tok
Cancelled(i, n) ==
  /\ cmp[i].st = "wait" /\ cmp[i].pc = n /\ cmp[i].creq
  /\ cmp' = [cmp EXCEPT ![i] = IF Stm(i) = "ig" THEN [@ EXCEPT !.st = "run", !.pc = @ + 1, !.creq = FALSE] ELSE [@ EXCEPT !.st = "cancelled"]]
  /\ UNCHANGED tok
End(i, r) ==
  /\ \/ r = "ok" /\ cmp[i].st = "run" /\ cmp[i].pc > Len(cmp[i].body)
     \/ r = "raise" /\ cmp[i].st = "raise"
     \/ r = "cancelled" /\ cmp[i].st = "cancelled"
  /\ cmp' = [cmp EXCEPT ![i] = [st |-> "done"]]
  /\ UNCHANGED tok
(* cancelling a token reaches all its unfinished computations *)
(* `far`: from another thread; then it may take the computation a moment longer *)
XBegin(t, far) ==
  /\ tok' = [tok EXCEPT ![t] = IF @ = "live" THEN "cancelling" ELSE @]
  /\ cmp' = [i \in DOMAIN cmp |->
       IF On(i) /\ cmp[i].t = t /\ tok[t] = "live"
       THEN [cmp[i] EXCEPT !.creq = TRUE, !.far = far, !.late = (cmp[i].st = "wait" /\ (~Gate(Stm(i)) \/ cmp[i].pc \in cmp[i].open))]
       ELSE cmp[i]]
XEnd(t) == tok' = [tok EXCEPT ![t] = "cancelled"] /\ UNCHANGED cmp
QuietOK == \A i \in DOMAIN cmp :
  \/ cmp[i].st \in {"none", "dead", "done"}
  \/ cmp[i].st = "ready" /\ cmp[i].creq
  \/ cmp[i].st = "wait" /\ Gate(Stm(i)) /\ cmp[i].pc \notin cmp[i].open /\ ~cmp[i].creq
=============================================================================
