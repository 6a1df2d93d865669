------------------------------ MODULE CancelGen ------------------------------
(* Programs: the callbacks registered at first (their behaviours) and what each thread does then. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Threads, MaxOps, MaxTotal, Kinds, MaxInit, Behaviours
VARIABLES init, prog
Lists(S, n) == UNION {[1..m -> S] : m \in 0..n}
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE Len(Head(p)) + Total(Tail(p))
Init == /\ init \in Lists(Behaviours, MaxInit)
        /\ prog \in [1..Threads -> Lists(Kinds, MaxOps) \ {<<>>}]
        /\ Total(prog) <= MaxTotal
        /\ \E i \in 1..Threads : \E j \in 1..Len(prog[i]) : prog[i][j] \in {"c", "w", "d"}
        /\ \A i \in 1..(Threads - 1) : Len(prog[i]) <= Len(prog[i + 1])
Next == FALSE /\ UNCHANGED <<init, prog>>
Spec == Init /\ [][Next]_<<init, prog>>
Emit == PrintT("@" \o ToJson([init |-> init, threads |-> prog]))
=============================================================================
