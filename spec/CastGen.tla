------------------------------ MODULE CastGen ------------------------------
(* Every type against every value of the classes in classes.ndjson. *)
EXTENDS Cast
CONSTANT Depth
VARIABLES regs, last, n
ClassData == ndJsonDeserialize("classes.ndjson")
Lits == <<>>
Types == { <<"cls", c>> : c \in Names }
Gens == { <<"gen", Classes[i].name>> : i \in { i \in 1..Len(Classes) : Classes[i].generic } }
Insts == { <<"inst", Classes[i].name, 1>> : i \in { i \in 1..Len(Classes) : Classes[i].concrete } }
CasesOver(r) ==
  { <<op, <<T, x>> >> : op \in {"upcast", "downcast", "try_downcast"}, T \in Types, x \in Insts }
  \cup { <<"try_downcast", <<T, x>> >> : T \in Gens, x \in Insts }
  \cup { <<"failwith", <<v>> >> : v \in {Str(""), Str("a"), Str("%s {}"), Str("Nothing")} }
INSTANCE Store WITH Eval <- CastEval, CasesOver <- CasesOver
ASSUME Laws
=============================================================================
