------------------------------- MODULE DispMC -------------------------------
(* The design: any number of overlapping operations, every interleaving. *)
EXTENDS Disp
CONSTANTS Ops, Objs
VARIABLES runs,     \* how often the action of each object was started
          over      \* the operations that have ended
mvars == <<owner, op, runs, over>>
Lists == {<<x>> : x \in Objs} \cup {<<x, y>> : x, y \in Objs}
Init == owner = [x \in Objs |-> 0] /\ op = [o \in Ops |-> Idle] /\ runs = [x \in Objs |-> 0] /\ over = {}
Next == \E o \in Ops :
  \/ \E xs \in Lists : DBegin(o, xs) /\ UNCHANGED <<runs, over>>
  \/ DClaim(o) /\ UNCHANGED <<runs, over>>
  \/ \E x \in Objs : ABegin(o, x) /\ runs' = [runs EXCEPT ![x] = @ + 1] /\ UNCHANGED over
  \/ \E x \in Objs, r \in {"ok", "raise"} : AEnd(o, x, r) /\ UNCHANGED <<runs, over>>
  \/ \E r \in {"ok", "raise"} : DEnd(o, r) /\ over' = over \cup {<<o, r>>} /\ UNCHANGED runs
  \/ \E x \in Objs : NBegin(o, x) /\ UNCHANGED <<runs, over>>
  \/ NLook(o) /\ UNCHANGED <<runs, over>>
  \/ \E r \in {"ok", "disposed"} : NEnd(o, r) /\ UNCHANGED <<runs, over>>
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
AtMostOnce == \A x \in Objs : runs[x] <= 1
OnlyClaimed == \A x \in Objs : (runs[x] = 1) => owner[x] # 0
(* when nothing is under way, exactly the disposed objects have run their action *)
Quiet == \A o \in Ops : op[o].k \in {"idle", "done"}
ExactlyOnce == Quiet => \A x \in Objs : runs[x] = IF owner[x] # 0 THEN 1 ELSE 0
Sticky == [][\A x \in Objs : owner[x] # 0 => owner'[x] = owner[x]]_mvars
=============================================================================
