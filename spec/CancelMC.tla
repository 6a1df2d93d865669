------------------------------ MODULE CancelMC ------------------------------
(* The design under every interleaving of a few overlapping operations. *)
EXTENDS Cancel
CONSTANTS Ops
VARIABLES calls,     \* how often the callback of registration (= operation) o was called
          ok,        \* registrations that succeeded and ended
          dead,      \* registrations whose removal ended before any cancellation began
          started    \* some cancellation has begun
mvars == <<cancelled, live, gone, taken, op, calls, ok, dead, started>>
Init == CInit(Ops) /\ calls = [o \in Ops |-> 0] /\ ok = {} /\ dead = {} /\ started = FALSE
Next == \E o \in Ops :
  \/ RBegin(o, o, o) /\ UNCHANGED <<calls, ok, dead, started>>
  \/ \E k \in ok : UBegin(o, k) /\ UNCHANGED <<calls, ok, dead, started>>
  \/ XBegin(o) /\ started' = TRUE /\ UNCHANGED <<calls, ok, dead>>
  \/ QBegin(o) /\ UNCHANGED <<calls, ok, dead, started>>
  \/ Steps(o) /\ UNCHANGED <<calls, ok, dead, started>>
  \/ \E r \in {"ok", "refused"} : REnd(o, r) /\ ok' = (IF r = "ok" THEN ok \cup {o} ELSE ok) /\ UNCHANGED <<calls, dead, started>>
  \/ UEnd(o, "ok") /\ dead' = (IF started \/ \E i \in 1..Len(live) : live[i][1] = op[o].reg THEN dead ELSE dead \cup {op[o].reg}) /\ UNCHANGED <<calls, ok, started>>
  \/ \E f \in Ops : XCall(o, f) /\ calls' = [calls EXCEPT ![f] = @ + 1] /\ UNCHANGED <<ok, dead, started>>
  \/ \E f \in Ops : XBack(o, f) /\ UNCHANGED <<calls, ok, dead, started>>
  \/ XEnd(o, "ok") /\ UNCHANGED <<calls, ok, dead, started>>
  \/ \E r \in {"yes", "no"} : QEnd(o, r) /\ UNCHANGED <<calls, ok, dead, started>>
Spec == Init /\ [][Next]_mvars
AtMostOnce == \A o \in Ops : calls[o] <= 1
NeverAfterDisposal == \A o \in dead : calls[o] = 0
Quiet == \A o \in Ops : op[o].k \in {"idle", "done"}
(* when everything has ended after a cancellation, every successful registration was called or disposed *)
NoneLost == (Quiet /\ cancelled) => \A o \in ok : calls[o] = 1 \/ o \in gone \/ ~ \E i \in 1..Len(live) : live[i][1] = o
Sticky == [][cancelled => cancelled']_mvars
=============================================================================
