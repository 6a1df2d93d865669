----------------------------- MODULE TailRecPar -----------------------------
(* Several async recursions at once, under every interleaving of their steps. *)
EXTENDS TailRec
CONSTANTS Tasks, Few
VARIABLES progs, st, log, sched
vars == <<progs, st, log, sched>>
T(l, a) == <<"tail", l, a, <<>> >>
Progs ==
  IF Few THEN
  { << <<T(2, <<I(7)>>), <<"args">> >> >>, << << <<"trycall", 1, 3, 2>>, <<"args">>, <<"raise">> >> >>, << <<T(2, <<I(1)>>), <<"raise">> >> >> }
  ELSE
  { << <<T(2, <<I(7)>>), T(3, <<>>), <<"args">> >> >>,
    << << <<"tail", 2, <<None>>, << <<"a", I(1)>> >> >>, <<"ret", None>> >> >>,
    << <<T(2, <<>>), <<"trycall", 1, 4, 3>>, <<"args">>, <<"raise">> >> >>,
    << << <<"call", 1, 3, 2>>, <<"args">>, T(4, <<I(2)>>), <<"ret", I(0)>> >> >>,
    << <<T(2, <<I(1)>>), <<"raise">> >> >>,
    << << <<"ret", I(5)>> >> >> }
Init == progs \in [1..Tasks -> Progs] /\ st = [c \in 1..Tasks |-> Start(1, 1)] /\ log = <<>> /\ sched = <<>>
Next == \E c \in 1..Tasks :
  /\ Running(st[c])
  /\ st' = [st EXCEPT ![c] = Step(progs[c], @)]
  /\ log' = Append(log, <<c, Last(st'[c].log)>>)
  /\ sched' = Append(sched, c)
  /\ UNCHANGED progs
Spec == Init /\ [][Next]_vars
AllDone == \A c \in 1..Tasks : ~Running(st[c])
Emit == ~AllDone \/ PrintT("@" \o ToJson([progs |-> progs, sched |-> sched, log |-> log, rets |-> [c \in 1..Tasks |-> st[c].ret]]))
Independent == \A c \in 1..Tasks : ~Running(st[c]) => LET s == Run(progs[c], Start(1, 1)) IN s.ret = st[c].ret /\ s.log = st[c].log
=============================================================================
