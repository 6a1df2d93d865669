---------------------------- MODULE AsyncSeqGen ----------------------------
(* AsyncSeq operations: the list operations of the same names *)
EXTENDS SeqSpec
CONSTANTS Depth, Size
VARIABLES regs, last, n
Lits == <<>>
AsyncOps == {"map", "choose", "collect", "concat", "append", "filter", "fold", "fold_back", "scan", "take", "skip", "head", "seq.tail", "length",
             "sum", "max", "min", "empty", "range1", "range2", "range3", "identity"}
AEval(op, a) == IF op = "repeat" THEN R(List([i \in 1..a[2][2] |-> a[1]])) ELSE SeqEval(op, a)
Cases(x) == { c \in SeqCasesN(Size) : c[1] \in AsyncOps /\ (c[1] = "append" => Len(c[2]) = 2) }
            \cup { <<"repeat", <<v, I(k)>> >> : v \in {None, I(0), Nothing, Weird(1)}, k \in 0..3 }
INSTANCE Store WITH Eval <- AEval, CasesOver <- Cases
=============================================================================
