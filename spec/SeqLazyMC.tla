----------------------------- MODULE SeqLazyMC -----------------------------
EXTENDS SeqLazy
SrcA == <<I(1), I(2), I(3), I(4)>>
SrcB == <<I(2), I(0), I(1)>>
SrcE == <<>>
SrcL == <<I(0), I(1), I(2), I(3), I(4), I(5), I(6), I(7), I(8), I(9), I(10), I(11), I(12)>>
=============================================================================
