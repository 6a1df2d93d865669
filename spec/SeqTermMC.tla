----------------------------- MODULE SeqTermMC -----------------------------
(* terminal operations that stop at their answer: need = elements of the source they may consume *)
EXTENDS Lists
VARIABLE last
Srcs == NumSeqs(4)
Cases == { <<"head", None>> } \cup { <<"try_find_index", Fn(f)>> : f \in {"is2", "pos", "even"} }
         \cup { <<"try_pick", Fn(f)>> : f \in {"choose_pos", "choose_even", "pick2"} }
Result(c, xs) == IF c[2] = None THEN ListEval(c[1], <<List(xs)>>, List) ELSE ListEval(c[1], <<List(xs), c[2]>>, List)
(* the shortest prefix that already decides the answer *)
Need(c, xs) ==
  LET full == Result(c, xs).ret
      ok == {m \in 0..Len(xs) : Result(c, Prefix(xs, m)).ret = full /\ ~IsRaise(full) /\ full # Nothing}
  IN  IF ok = {} THEN Len(xs) + 1 ELSE MinOf(ok)
Init == last = [op |-> "init"]
Next == last.op = "init" /\ \E c \in Cases, xs \in Srcs :
          last' = [op |-> c[1], fn |-> c[2], src |-> xs, ret |-> Result(c, xs).ret, need |-> Need(c, xs)]
Spec == Init /\ [][Next]_last
Emit == last.op = "init" \/ PrintT("@" \o ToJson(last))
=============================================================================
