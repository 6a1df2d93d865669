----------------------------- MODULE TailRecGen -----------------------------
(* Every program of up to Size labels (control only moves to later labels). *)
EXTENDS TailRec
CONSTANT Size
VARIABLES prog, st
Rets == { <<"ret", v>> : v \in {None, I(0), Tup(<<>>), Fn("f"), <<"exc", "Boom">>} } \cup { <<"args">>, <<"raise">> }
Instr(l) ==
  LET later == (l + 1)..Size IN
  Rets \cup { <<"tail", m, a, k>> : m \in later, a \in {<<>>, <<None>>, <<I(1), Tup(<<>>)>>}, k \in {<<>>, << <<"a", I(0)>>, <<"b", None>> >>} }
       \cup { <<op, 1, m, n>> : op \in {"call", "trycall"}, m \in later, n \in later }
       \cup { <<"callret", 1, m>> : m \in later }
Init == st = Start(1, 1) /\ prog = <<>>
(* choose the program label by label, then run it *)
Next ==
  \/ Len(prog) < Size /\ (\E i \in Instr(Len(prog) + 1) : prog' = Append(prog, i)) /\ UNCHANGED st
  \/ Len(prog) = Size /\ Running(st) /\ st' = Step(<<prog>>, st) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, st>>
(* a tail call never makes the stack deeper: only calls do *)
ConstantStack == [][Len(st'.stack) > Len(st.stack) => prog[Last(st.stack)[3][1]][1] \in {"call", "trycall", "callret"}]_<<prog, st>>
Emit == Running(st) \/ PrintT("@" \o ToJson([P |-> <<prog>>, log |-> st.log, ret |-> st.ret]))
=============================================================================
