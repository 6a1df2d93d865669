----------------------------- MODULE BuilderPar -----------------------------
(***************************************************************************)
(* Several async calls at once.  A scheduled call runs until its next      *)
(* suspension point; the log is global.  Each call's result and its own    *)
(* part of the log must be those of the call running alone (Independent).  *)
(* A suspended call may be cancelled: its remaining statements never run,  *)
(* its open finally blocks do, and it ends as cancelled.                   *)
(***************************************************************************)
EXTENDS Builder
CONSTANTS Kinds, Calls, Few, MaxCancel
VARIABLES kind, form, progs, st, pc, log, sched
vars == <<kind, form, progs, st, pc, log, sched>>

\* each call has values of its own, so that a value of another call is seen
Good(k, c) == IF IsOpt(k) THEN Some(I(6 + c)) ELSE Ok(I(6 + c))
Bad(k, c) == IF IsOpt(k) THEN Nothing ELSE Err(IF Base(k) = "try" THEN <<"exc", IF c = 1 THEN "KeyError" ELSE "Boom">> ELSE I(c - 1))
Susp == <<"susp">>
Progs(k, f, c) ==
  LET y == <<"yield", I(6 + c)>>
      g == <<"bind", Good(k, c)>>
      b == <<"bind", Bad(k, c)>>
      r == <<"raise">>
      core == { <<Susp, b, g>>, <<g, Susp, g>>, <<<<"tryF">>, Susp, b, <<"end">>, Susp, g>>, <<Susp, <<"tryE">>, Susp, r, <<"end">>, g>> }
      more == { <<b, Susp, g>>, <<Susp, Susp, b, Susp>>, <<g, <<"tryF">>, Susp, r>>, <<Susp, <<"call", 2>>, g>>, <<Susp, <<"call", 1>>, Susp>>, <<>> }
      gens == { <<y, Susp, b, y>>, <<y, Susp, y, Susp, <<"yield", None>> >>, <<Susp, y, <<"return", None>>, b>>, <<y, <<"tryF">>, Susp, b>> }
      cos == { <<Susp, <<"return", I(c - 1)>> >>, <<g, Susp, <<"return", I(2 + c)>>, b>>, <<Susp, <<"return", None>> >> }
  IN  core \cup (IF Few THEN {} ELSE more) \cup
      (IF f = "gen" THEN (IF Few THEN {<<y, Susp, b, y>>} ELSE gens) ELSE IF Few THEN {<<Susp, <<"return", I(c - 1)>> >>} ELSE cos)

RECURSIVE Seg(_, _, _, _, _)
Seg(k, prog, i, base, s) ==
  IF i > Len(prog) THEN [st |-> CloseAll(s, base + i), pc |-> i + 1]
  ELSE LET s2 == Step(k, prog, i, base, 0, s)
       IN  IF prog[i] = Susp /\ s.mode = "run" THEN [st |-> s2, pc |-> i + 1] ELSE Seg(k, prog, i + 1, base, s2)

Init == /\ kind \in Kinds
        /\ form \in [1..Calls -> {"gen", "co"}]
        /\ progs \in { p \in [1..Calls -> UNION { Progs(kind, f, c) : f \in {"gen", "co"}, c \in 1..Calls }] : \A c \in 1..Calls : p[c] \in Progs(kind, form[c], c) }
        /\ st = [c \in 1..Calls |-> Start]
        /\ pc = [c \in 1..Calls |-> 1]
        /\ log = <<>> /\ sched = <<>>
Done(c) == pc[c] > Len(progs[c]) + 1
Next == \E c \in 1..Calls :
          /\ ~Done(c)
          /\ LET g == Seg(kind, progs[c], pc[c], 10000 * c, st[c]) IN
             /\ st' = [st EXCEPT ![c] = g.st]
             /\ pc' = [pc EXCEPT ![c] = g.pc]
             /\ log' = log \o SubSeq(g.st.log, Len(st[c].log) + 1, Len(g.st.log))
          /\ sched' = Append(sched, c)
          /\ UNCHANGED <<kind, form, progs>>
Cancelled == { c \in 1..Calls : st[c].mode = "cancel" }
Cancel == \E c \in 1..Calls :
          /\ ~Done(c) /\ pc[c] > 1 /\ st[c].mode = "run"
          /\ Cardinality(Cancelled) < MaxCancel
          /\ LET g == Seg(kind, progs[c], pc[c], 10000 * c, Stop(st[c], "cancel", None)) IN
             /\ st' = [st EXCEPT ![c] = g.st]
             /\ pc' = [pc EXCEPT ![c] = g.pc]
             /\ log' = log \o SubSeq(g.st.log, Len(st[c].log) + 1, Len(g.st.log))
          /\ sched' = Append(sched, -c)
          /\ UNCHANGED <<kind, form, progs>>
Spec == Init /\ [][Next \/ Cancel]_vars
AllDone == \A c \in 1..Calls : Done(c)
Rets == [c \in 1..Calls |-> Final(kind, st[c])]
Emit == ~AllDone \/ PrintT("@" \o ToJson([kind |-> kind, forms |-> form, progs |-> progs, sched |-> sched, log |-> log, rets |-> Rets]))
Independent == \A c \in 1..Calls : Done(c) /\ c \notin Cancelled =>
  LET alone == Run(kind, progs[c], 10000 * c, 0) IN alone.ret = Rets[c] /\ alone.log = st[c].log
Prefixed(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Started(l) == SelectSeq(l, LAMBDA x : x[1] # "fin")
CancelStops == \A c \in Cancelled : Done(c) /\ Prefixed(Started(st[c].log), Started(Run(kind, progs[c], 10000 * c, 0).log))
=============================================================================
