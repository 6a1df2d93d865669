----------------------------- MODULE HeapTrace -----------------------------
(***************************************************************************)
(* As StoreTrace, for mutable objects: Eval also gives the new content of  *)
(* the first operand (self); every other object keeps its content.         *)
(***************************************************************************)
EXTENDS Terms
CONSTANTS Eval(_, _), Trace, IsRef(_)
VARIABLES l, regs, skip

tvars == <<l, regs, skip>>
TInit == l = 1 /\ regs = <<>> /\ skip = FALSE
Resolve(a) == IF a[1] = "reg" THEN regs[a[2]] ELSE a
Report(what, exp) == PrintT("@" \o ToJson([mismatch |-> what, line |-> l, expected |-> exp]))

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN regs' = <<>> /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<regs, skip>>
     ELSE IF e.ev = "lit" THEN regs' = Append(regs, e.v) /\ UNCHANGED skip
     ELSE IF e.ev = "proj" THEN
        /\ UNCHANGED regs
        /\ IF e.regs = regs THEN UNCHANGED skip
           ELSE skip' = TRUE /\ Report("an object changed that the operations did not touch, or a change is missing", regs)
     ELSE LET args == [i \in 1..Len(e.args) |-> Resolve(e.args[i])]
              x == Eval(e.op, args)
              upd == IF Len(e.args) > 0 /\ e.args[1][1] = "reg" THEN [regs EXCEPT ![e.args[1][2]] = x.self] ELSE regs
          IN  IF x.ret = e.ret /\ x.calls = e.calls
              THEN /\ regs' = IF IsRef(x.ret) THEN Append(upd, x.ret) ELSE upd
                   /\ UNCHANGED skip
              ELSE /\ UNCHANGED regs
                   /\ skip' = TRUE
                   /\ Report("result or callback calls differ", x)

TSpec == TInit /\ [][TNext]_tvars
TDone == l <= Len(Trace) \/ PrintT("@" \o ToJson([validated |-> l - 1]))
=============================================================================
