------------------------------ MODULE ResultGen ------------------------------
EXTENDS Railway
CONSTANT Depth
VARIABLES regs, last, n
Lits == <<>>
INSTANCE Store WITH Eval <- ResEval, CasesOver <- ResCases
ASSUME ResLaws
=============================================================================
