------------------------------- MODULE DispGen -------------------------------
(* Programs: what each thread (or task) does with the object, and how its action behaves. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxOps, MaxTotal, Kinds, Acts
VARIABLES act, prog
Seqs == UNION {[1..n -> Kinds] : n \in 1..MaxOps}
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE Len(Head(p)) + Total(Tail(p))
(* threads are alike: count programs up to the order of the threads *)
Num(s) == LET k(x) == CHOOSE n \in 1..9 : <<"d", "w", "wr", "e", "c", "x", "y", "z", "u">>[n] = x IN
          IF Len(s) = 1 THEN k(s[1]) ELSE 10 * k(s[1]) + k(s[2])
Init == act \in Acts /\ prog \in [1..Threads -> Seqs] /\ Total(prog) <= MaxTotal /\ \A i \in 1..(Threads - 1) : Num(prog[i]) <= Num(prog[i + 1])
Next == FALSE /\ UNCHANGED <<act, prog>>
Spec == Init /\ [][Next]_<<act, prog>>
Emit == PrintT("@" \o ToJson([act |-> act, threads |-> prog]))
=============================================================================
