------------------------------ MODULE SeqGen ------------------------------
EXTENDS SeqSpec
CONSTANTS Depth, Size
VARIABLES regs, last, n
Lits == <<>>
Cases(x) == SeqCasesN(Size)
INSTANCE Store WITH Eval <- SeqEval, CasesOver <- Cases
=============================================================================
