------------------------------ MODULE BlockGen ------------------------------
EXTENDS BlockSpec
CONSTANTS Depth, Size
VARIABLES regs, last, n
Lits == <<>>
Cases(x) == BlockCasesN(Size)
INSTANCE Store WITH Eval <- BlockEval, CasesOver <- Cases
ASSUME BlockLaws
=============================================================================
