------------------------------ MODULE OptionGen ------------------------------
EXTENDS Railway
CONSTANT Depth
VARIABLES regs, last, n
Lits == <<>>
INSTANCE Store WITH Eval <- OptEval, CasesOver <- OptCases
ASSUME OptLaws
=============================================================================
