-------------------------------- MODULE Disp --------------------------------
(* Disposables.  An object is disposed by the first dispose operation that reaches it (its claim is one atomic step);   *)
(* that operation runs the object's action, once; every other operation does nothing.  Entering a context looks at the  *)
(* state of the object once.  Operations overlap: each has a begin, an end and its atomic steps in between.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
  owner,   \* owner[x]: the operation that claimed object x, 0 when it is not disposed
  op       \* op[o]: the state of operation o
dvars == <<owner, op>>
Idle == [k |-> "idle"]
(* a dispose operation over the objects xs (one, or the members of a composite, in order) *)
Begun(xs) == [k |-> "dispose", xs |-> xs, i |-> 1, st |-> "next", res |-> "ok"]
DBegin(o, xs) == op[o] = Idle /\ op' = [op EXCEPT ![o] = Begun(xs)] /\ UNCHANGED owner
(* the next object of the operation is claimed, or is found claimed *)
DClaim(o) ==
  LET p == op[o] IN
  /\ p.k = "dispose" /\ p.st = "next" /\ p.i <= Len(p.xs)
  /\ IF owner[p.xs[p.i]] = 0
     THEN owner' = [owner EXCEPT ![p.xs[p.i]] = o] /\ op' = [op EXCEPT ![o].st = "won"]
     ELSE UNCHANGED owner /\ op' = [op EXCEPT ![o].i = @ + 1]
ABegin(o, x) == op[o].k = "dispose" /\ op[o].st = "won" /\ op[o].xs[op[o].i] = x /\ op' = [op EXCEPT ![o].st = "acting"] /\ UNCHANGED owner
AEnd(o, x, r) ==
  /\ op[o].k = "dispose" /\ op[o].st = "acting" /\ op[o].xs[op[o].i] = x
  /\ op' = [op EXCEPT ![o] = IF r = "ok" THEN [@ EXCEPT !.st = "next", !.i = @ + 1] ELSE [@ EXCEPT !.st = "failed", !.res = r]]
  /\ UNCHANGED owner
(* the end of a dispose: `want` is what the caller sees *)
DEnd(o, want) ==
  /\ op[o].k = "dispose"
  /\ (op[o].st = "next" /\ op[o].i > Len(op[o].xs)) \/ op[o].st = "failed"
  /\ op[o].res = want
  /\ op' = [op EXCEPT ![o] = [k |-> "done"]] /\ UNCHANGED owner
NBegin(o, x) == op[o] = Idle /\ op' = [op EXCEPT ![o] = [k |-> "enter", x |-> x, st |-> "next"]] /\ UNCHANGED owner
NLook(o) == op[o].k = "enter" /\ op[o].st = "next" /\ op' = [op EXCEPT ![o].st = IF owner[op[o].x] = 0 THEN "ok" ELSE "disposed"] /\ UNCHANGED owner
NEnd(o, r) == op[o].k = "enter" /\ op[o].st = r /\ op' = [op EXCEPT ![o] = [k |-> "done"]] /\ UNCHANGED owner
=============================================================================
