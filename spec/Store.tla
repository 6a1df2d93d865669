------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The generic state machine behind every "library of operations on        *)
(* immutable values": the state is the collection of values obtained so    *)
(* far, a transition applies one operation to some of them and adds its    *)
(* result; no transition changes a value that is already there.            *)
(*                                                                         *)
(* Eval(op, args) gives [ret, calls]; Lits the initial values; CasesOver   *)
(* the <<op, args>> pairs that are explored from a given store.            *)
(***************************************************************************)
EXTENDS Terms
CONSTANTS Eval(_, _), CasesOver(_), Lits, Depth
VARIABLES regs, last, n

vars == <<regs, last, n>>
Init == n = 0 /\ regs = Lits /\ last = [op |-> "init", args |-> <<>>, ret |-> None, calls |-> <<>>]

Do(op, args) ==
  LET e == Eval(op, args)
  IN  /\ regs' = IF IsRaise(e.ret) THEN regs ELSE Append(regs, e.ret)
      /\ last' = [op |-> op, args |-> args, ret |-> e.ret, calls |-> e.calls]

Next == /\ n < Depth
        /\ n' = n + 1
        /\ \E c \in CasesOver(regs) : Do(c[1], c[2])

Spec == Init /\ [][Next]_vars

(* persistence: values obtained earlier never change *)
Persistent == [][\A i \in 1..Len(regs) : regs'[i] = regs[i]]_vars

(* printed once per distinct state = once per distinct transition result *)
Emit == last.op = "init" \/ PrintT("@" \o ToJson(last))
=============================================================================
