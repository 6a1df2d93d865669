----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of a Store.  Trace (from traces.ndjson) has    *)
(* one event per line:                                                     *)
(*   reset                      a new history starts                       *)
(*   lit   v                    the value v was created                    *)
(*   call  op args ret calls    args are ["reg", i] or literal terms       *)
(*   proj  regs                 what all values look like now              *)
(* The verdict is total: a mismatch is printed with the line number and    *)
(* the expected event, and validation goes on with the next history.       *)
(***************************************************************************)
EXTENDS Terms
CONSTANTS Eval(_, _), Trace
VARIABLES l, regs, skip

tvars == <<l, regs, skip>>
TInit == l = 1 /\ regs = <<>> /\ skip = FALSE

Resolve(a) == IF a[1] = "reg" THEN regs[a[2]] ELSE a
Report(what, exp) == PrintT("@" \o ToJson([mismatch |-> what, line |-> l, expected |-> exp]))

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN regs' = <<>> /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<regs, skip>>
     ELSE IF e.ev = "lit" THEN regs' = Append(regs, e.v) /\ UNCHANGED skip
     ELSE IF e.ev = "proj" THEN
        /\ UNCHANGED regs
        /\ IF e.regs = regs THEN UNCHANGED skip
           ELSE skip' = TRUE /\ Report("a value obtained earlier changed", regs)
     ELSE LET args == [i \in 1..Len(e.args) |-> Resolve(e.args[i])]
              x == Eval(e.op, args)
          IN  IF x.ret = e.ret /\ x.calls = e.calls
              THEN /\ regs' = IF IsRaise(x.ret) THEN regs ELSE Append(regs, x.ret)
                   /\ UNCHANGED skip
              ELSE /\ UNCHANGED regs
                   /\ skip' = TRUE
                   /\ Report("result or callback calls differ", x)

TSpec == TInit /\ [][TNext]_tvars
TDone == l <= Len(Trace) \/ PrintT("@" \o ToJson([validated |-> l - 1]))
=============================================================================
