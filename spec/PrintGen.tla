------------------------------ MODULE PrintGen ------------------------------
EXTENDS Print
CONSTANT Depth
VARIABLES regs, last, n
Lits == <<>>
INSTANCE Store WITH Eval <- PrintEval, CasesOver <- CasesOver
ASSUME CaseVisible
=============================================================================
