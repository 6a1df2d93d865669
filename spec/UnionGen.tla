------------------------------ MODULE UnionGen ------------------------------
EXTENDS Union
CONSTANT Depth
VARIABLES regs, last, n
Lits == <<>>
NoMore == <<>>
INSTANCE Store WITH Eval <- UnionEval, CasesOver <- CasesOver
ASSUME Laws
=============================================================================
