----------------------------- MODULE BuilderGen -----------------------------
(* every program of up to N tokens, grown one token (= one transition of the machine) at a time *)
EXTENDS Builder
CONSTANTS N, Rich, Kinds
VARIABLES kind, form, prog, st
vars == <<kind, form, prog, st>>

V(k) == IF Rich THEN {None, I(0), Weird(1), Nothing, Bool(FALSE)} ELSE {Weird(1)}
Good(k) ==
  CASE k = "seq" -> IF Rich THEN {Some(I(0)), Ok(None), SeqT(<<>>), SeqT(<<I(1), None, I(2)>>)} ELSE {SeqT(<<I(1), I(2)>>)}
    [] IsOpt(k) -> { Some(v) : v \in V(k) }
    [] OTHER -> { Ok(v) : v \in V(k) }
Bad(k) ==
  CASE k = "seq" -> {}
    [] IsOpt(k) -> {Nothing}
    [] Base(k) = "try" -> IF Rich THEN {Err(<<"exc", "KeyError">>), Err(<<"exc", "Boom">>)} ELSE {Err(<<"exc", "KeyError">>)}
    [] OTHER -> IF Rich THEN {Err(I(0)), Err(None), Err(Weird(1))} ELSE {Err(None)}
Toks(k, f) ==
  { <<"bind", m>> : m \in IF f = "plain" THEN {} ELSE Good(k) \cup Bad(k) }
  \cup (IF f = "gen" THEN { <<"yield", v>> : v \in V(k) } ELSE {})
  \cup (IF k \in AsyncKinds /\ f = "gen" THEN { <<"return", None>> } ELSE { <<"return", v>> : v \in V(k) })
  \cup { <<"raise">>, <<"tryF">>, <<"tryE">> }
  \cup (IF k \in AsyncKinds /\ f # "plain" THEN {<<"susp">>} ELSE {})
  \cup (IF Rich /\ f # "plain" THEN { <<"call", j>> : j \in 1..4 } ELSE {})
  \cup (IF Rich /\ f = "gen" THEN {<<"rep", 3, I(9)>>, <<"arg">>} ELSE {})
(* gen: the body contains a yield; co: a coroutine without one; plain: a plain function *)
Forms(k) == IF k \in AsyncKinds THEN {"gen", "co"} ELSE {"gen", "plain"}

Init == kind \in Kinds /\ form \in Forms(kind) /\ prog = <<>> /\ st = Start
Next == /\ Len(prog) < N
        /\ \E t \in Toks(kind, form) \cup (IF st.stack = <<>> THEN {} ELSE {<<"end">>}) :
             /\ prog' = Append(prog, t)
             /\ st' = Step(kind, prog', Len(prog'), 0, 0, st)
        /\ UNCHANGED <<kind, form>>
Spec == Init /\ [][Next]_vars

Expected == LET s == CloseAll(st, Len(prog) + 1) IN [kind |-> kind, form |-> form, prog |-> prog, ret |-> Final(kind, s), log |-> s.log]
Emit == PrintT("@" \o ToJson(Expected))

(* a failed bind ends the body for good, with the payload of the first failing bind, and nothing runs after it except finally blocks *)
Sticky == [][st.mode = "eff" => st'.mode = "eff" /\ st'.payload = st.payload]_vars
Quiet  == [][st.mode # "run" => \A j \in (Len(st.log) + 1)..Len(st'.log) : st'.log[j][1] \in {"fin", "exc"}]_vars
FirstFailure == LET s == CloseAll(st, 99) IN
  s.mode = "eff" => \E i \in 1..Len(prog) : \/ prog[i] = <<"bind", s.payload>>
                                            \/ prog[i] \in {<<"call", 2>>, <<"call", 4>>}
=============================================================================
