------------------------------- MODULE FuncGen -------------------------------
(* All pipes up to a length, and every complete application of curried functions. *)
EXTENDS Func
CONSTANT Size
VARIABLES phase, last
Nil == [op |-> "init", args |-> <<>>, ret |-> None, calls |-> <<>>]
GInit == last = Nil /\ phase \in {<<"cases">>} \cup { <<k, n>> : k \in {"curry", "flip"}, n \in 0..4 }
Do(op, args) == LET e == FuncEval(op, args) IN last' = [op |-> op, args |-> args, ret |-> e.ret, calls |-> e.calls]
(* the complete application is printed as one item: all groups in order *)
DoAll(p) ==
  LET c == Direct(p) IN
  last' = [op |-> "whole", args |-> <<Str(p[2]), I(p[3]), p[4], <<"groups", p[5]>> >>, ret |-> Call(p[4][2], c), calls |-> << <<p[4][2], c>> >>]
GNext ==
  /\ last = Nil
  /\ phase' = <<"done">>
  /\ IF phase[1] = "cases" THEN \E c \in Cases(Size) : Do(c[1], c[2])
     ELSE \E f \in {Fn("f"), Fn("boomT")} : \E p \in Complete(phase[1], phase[2], f) : DoAll(p)
GSpec == GInit /\ [][GNext]_<<phase, last>>
Emit == last = Nil \/ PrintT("@" \o ToJson(last))
(* applying group by group is the direct call, whatever the partials in between *)
RECURSIVE Steps(_, _, _)
Steps(p, gs, i) == IF i > Len(gs) THEN R(p) ELSE LET e == ApplyTo(p, gs[i][2], gs[i][3]) IN IF i = Len(gs) THEN e ELSE Steps(e.ret, gs, i + 1)
Stepwise == last.op = "whole" =>
  LET e == Steps(Curried(last.args[1][2], last.args[2][2], last.args[3], <<>>), last.args[4][2], 1)
  IN  e.ret = last.ret /\ e.calls = last.calls
(* pipe composes: x through f1..fn is (x through f1..fk) through the rest *)
Split == last.op = "pipe" /\ ~IsRaise(last.ret) =>
  \A k \in 1..Len(last.args) : Through(Through(last.args[1], SubSeq(last.args, 2, k), 1).ret, SubSeq(last.args, k + 1, Len(last.args)), 1).ret = last.ret
=============================================================================
