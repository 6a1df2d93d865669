------------------------------ MODULE ArrayGen ------------------------------
(* one step from every small heap; printed with the expected new contents of the operand *)
EXTENDS ArraySpec
CONSTANT Size
VARIABLE last
Init == last = [op |-> "init"]
Next == /\ last.op = "init"
        /\ \/ \E c \in ArrCasesN(Size) :
                LET e == ArrEval(c[1], c[2]) IN
                last' = [op |-> c[1], args |-> c[2], ret |-> e.ret, calls |-> e.calls,
                         after |-> IF c[2] = <<>> THEN <<>> ELSE <<e.self>> \o Tail(c[2])]
           \/ \E c \in TypeCasesOk \cup ElemCasesOk :
                LET e == TypeEval(c[1], c[2]) IN
                last' = [op |-> c[1], args |-> c[2], ret |-> e.ret, calls |-> e.calls, after |-> c[2]]
Spec == Init /\ [][Next]_last
Emit == last.op = "init" \/ PrintT("@" \o ToJson(last))
=============================================================================
