----------------------------- MODULE BlockSpec -----------------------------
(***************************************************************************)
(* Block: an immutable list.  Every operation is the list operation of the *)
(* same name (Lists.tla) with Block as the container.                      *)
(***************************************************************************)
EXTENDS Lists

BlockEval(op, a) == ListEval(op, a, Block)

Blks(S) == { Block(s) : s \in S }
Unary(ops, S, fns) == { <<op, <<b, f>> >> : op \in ops, b \in Blks(S), f \in FnS(fns) }
Plain(ops, S) == { <<op, <<b>> >> : op \in ops, b \in Blks(S) }

BlockCasesN(n) ==
  LET N == NumSeqs(n)
      N2 == NumSeqs(2)
      A == AnySeqs
      TF == {Bool(TRUE), Bool(FALSE)}
  IN
  UNION {
    Unary({"map"}, N, {"f", "inc", "none", "boom", "boom_at2", "boomV"}),
    Unary({"map"}, A, {"f", "id", "none", "nothing", "wk", "boom"}),
    Unary({"mapi"}, N, {"f", "pair", "none"}), Unary({"mapi"}, A, {"pair", "snd", "wk", "boom"}),
    Unary({"starmap", "map2"}, TupSeqs, {"f", "pair", "none", "wk", "boomT"}),
    Unary({"map3", "starmap"}, Tup3Seqs, {"f", "pair", "none", "boom"}),
    Unary({"choose"}, N, {"choose_pos", "choose_even", "nothing", "some_none", "boom", "some_f"}),
    Unary({"choose"}, A, {"some_id", "some_none", "some_wk", "nothing"}),
    Unary({"collect"}, N, {"dupB", "emptyB", "posB", "boom"}), Unary({"collect"}, A, {"dupB", "emptyB"}),
    Unary({"filter", "partition"}, N, {"pos", "even", "pT", "pF", "p1", "pS", "two", "pL", "none", "estr", "boom", "boom_key2"}),
    Unary({"filter", "partition"}, A, {"pT", "pF", "p1", "pS", "two", "pL", "zero", "boomV"}),
    Unary({"forall"}, N, {"pos", "even", "pT", "p1", "pS", "two", "pL", "zero", "none", "boom", "isnt1", "boom_key2"}),
    Unary({"forall"}, A, {"pT", "pF", "p1", "pS", "two", "pL"}),
    { <<"fold", <<b, f, s>> >> : b \in Blks(N), f \in FnS({"f", "sub", "mul10add"}), s \in {I(0), I(7)} },
    { <<"fold", <<b, f, s>> >> : b \in Blks(N \cup A), f \in FnS({"none", "snd", "id", "wk", "boom"}), s \in {None, Nothing, Block(<<>>)} },
    Unary({"reduce"}, N, {"f", "sub", "mul10add", "boom"}), Unary({"reduce"}, A, {"snd", "id", "none", "wk"}),
    { <<"append", <<b, c>> >> : b, c \in Blks(N2 \cup A) }, { <<"append", <<Block(<<I(1)>>), c>> >> : c \in Blks(N) },
    { <<"add", <<b, c>> >> : b, c \in Blks(N2 \cup A) },
    { <<"concat", <<List(<<>>)>> >> }, { <<"concat", <<List(<<b>>)>> >> : b \in Blks(N2 \cup A) },
    { <<"concat", <<List(<<b, c>>)>> >> : b, c \in Blks(N2) },
    { <<"concat", <<List(<<b, Block(<<None>>), c>>)>> >> : b, c \in Blks(NumSeqs(1)) },
    { <<"cons", <<b, x>> >> : b \in Blks(N2 \cup A), x \in {None, I(0), Weird(1), Block(<<>>)} },
    Plain({"head", "tail", "try_head", "is_empty", "len", "match", "iterate"}, N \cup A \cup TokSeqs),
    Plain({"sum"}, N \cup AmtSeqs),
    { <<"indexed", <<b, s>> >> : b \in Blks(N2 \cup A), s \in {I(0), I(1), I(7), I(-2)} },
    { <<op, <<b, i>> >> : op \in {"item", "getitem"}, b \in Blks(N \cup A), i \in {I(k) : k \in 0..4} },
    { <<op, <<b, i>> >> : op \in {"skip", "take", "skip_last", "take_last"}, b \in Blks(N \cup A), i \in Counts },
    { <<"sort", <<b, r>> >> : b \in Blks(N \cup TokSeqs), r \in TF },
    { <<"sort_with", <<b, f, r>> >> : b \in Blks(N), f \in FnS({"id", "neg", "mod2", "zero", "boom", "boom_key2"}), r \in TF },
    { <<"sort_with", <<b, f, r>> >> : b \in Blks(TokSeqs), f \in FnS({"key", "id", "zero"}), r \in TF },
    Unary({"sum_by"}, N, {"inc", "neg", "boom", "boom_key2", "amt"}), Unary({"sum_by"}, AmtSeqs, {"id"}),
    { c \in { <<"zip", <<Block(b), Block(c)>> >> : b, c \in N2 \cup A } : Len(c[2][1][2]) = Len(c[2][2][2]) },
    { <<"contains", <<b, x>> >> : b \in Blks(N2 \cup TokSeqs), x \in {I(0), I(1), I(2), I(5), None, Tok(1, 9), Bool(TRUE)} },
    { <<"slice", <<b, x, y>> >> : b \in Blks(NumSeqs(3)), x, y \in {None} \cup {I(k) : k \in (-2)..4} },
    { <<"slice3", <<b, x, y, k>> >> : b \in Blks({<<>>, <<I(0)>>, <<I(0), I(1)>>, <<I(0), None, I(2)>>, <<I(4), I(3), I(2), I(1), I(0)>>}),
                                     x, y \in {None} \cup {I(k) : k \in {-6, -3, -1, 0, 1, 3, 7}}, k \in {I(j) : j \in {-3, -2, -1, 1, 2, 3}} },
    { <<"getitem", <<b, I(k)>> >> : b \in Blks(NumSeqs(3)), k \in (-5)..(-1) },
    { <<"contains", <<Block(x), Weird(1)>> >> : x \in {<<>>, <<Weird(1)>>, <<Weird(1), None>>, <<Weird(1), Weird(2)>>} },
    { <<"eq", <<b, b>> >> : b \in Blks({<<Weird(1)>>, <<None, Weird(1), Weird(2)>>}) },
    { <<"eq", <<b, c>> >> : b, c \in Blks(NumSeqs(2)) },
    { <<"eq", <<b, c>> >> : b, c \in Blks({<<None>>, <<Nothing>>, <<Some(I(0))>>, <<I(0)>>, <<Bool(FALSE)>>, <<Tok(1, 1)>>, <<Tok(1, 2)>>, <<Tok(2, 1)>>, <<>>, <<Block(<<>>)>>}) },
    { <<"of", x>> : x \in N2 \cup A }, { <<"of_seq", <<List(x)>> >> : x \in N2 \cup A }, { <<"of_seq", <<b>> >> : b \in Blks(N2) },
    { <<"of_option", <<o>> >> : o \in {Nothing, Some(None), Some(I(0)), Some(Nothing), Some(Some(I(1))), Some(Weird(1)), Some(Block(<<I(1)>>))} },
    { <<"singleton", <<x>> >> : x \in {None, I(0), Nothing, Weird(1), Block(<<>>), List(<<I(1), I(2)>>)} },
    { <<"empty", <<>> >> },
    { <<"unfold", <<I(k), f>> >> : k \in 0..4, f \in FnS({"unf", "unf_boom", "nothing", "boom"}) },
    { <<"range1", <<I(k)>> >> : k \in (-1)..4 }, { <<"range2", <<I(j), I(k)>> >> : j, k \in (-1)..3 },
    { <<"range3", <<I(j), I(k), I(s)>> >> : j, k \in (-2)..4, s \in {-2, -1, 1, 2, 3} }
  }

BlockCases(regs) == BlockCasesN(3)

(* laws of the specification itself *)
BlockLaws ==
  /\ \A b \in Blks(NumSeqs(3)), k \in Counts :
       /\ BlockEval("append", <<BlockEval("take", <<b, k>>).ret, BlockEval("skip", <<b, k>>).ret>>).ret = b
       /\ BlockEval("append", <<BlockEval("skip_last", <<b, k>>).ret, BlockEval("take_last", <<b, k>>).ret>>).ret = b
  /\ \A b \in Blks(NumSeqs(3)), p \in FnS({"pos", "even", "pT"}) :
       LET pr == BlockEval("partition", <<b, p>>).ret[2] IN
       /\ pr[1] = BlockEval("filter", <<b, p>>).ret
       /\ Len(pr[1][2]) + Len(pr[2][2]) = Len(b[2])
       /\ BlockEval("forall", <<b, p>>).ret = Bool(pr[2] = Block(<<>>))
  /\ \A b \in Blks(NumSeqs(3)) : b # Block(<<>>) =>
       BlockEval("cons", <<BlockEval("tail", <<b>>).ret, BlockEval("head", <<b>>).ret>>).ret = b
  /\ \A b \in Blks(TokSeqs), r \in BOOLEAN :
       LET s == BlockEval("sort", <<b, Bool(r)>>).ret[2] IN
       \A i, j \in 1..Len(s) : i < j => (IF r THEN ~PyLt(s[i], s[j]) ELSE ~PyLt(s[j], s[i]))
=============================================================================
