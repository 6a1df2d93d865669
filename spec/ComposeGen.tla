----------------------------- MODULE ComposeGen -----------------------------
EXTENDS Compose
CONSTANT Size
VARIABLE last
GInit == last = [op |-> "init"]
GNext == /\ last.op = "init"
         /\ \E c \in Cases(Size) : LET e == ComposeEval(c[1], c[2]) IN last' = [op |-> c[1], args |-> c[2], ret |-> e.ret, calls |-> e.calls]
GSpec == GInit /\ [][GNext]_last
Emit == last.op = "init" \/ PrintT("@" \o ToJson(last))

(* Kleisli laws on the enumerated cases *)
Assoc == last.op \notin {"pipeline.result"} \/ Len(last.args) # 3 \/
  LET one == Kleisli(Ok(last.args[1]), <<last.args[2]>>, 1)
      two == IF IsOk(one.ret) THEN Kleisli(one.ret, <<last.args[3]>>, 1) ELSE one
  IN  two.ret = last.ret
NoCallsAfterFailure == last.op \notin {"pipeline.result", "pipeline.option"} \/ Len(last.calls) <= Len(last.args) - 1
=============================================================================
