------------------------------ MODULE SeqSpec ------------------------------
(***************************************************************************)
(* Seq: every function yields the elements of the list operation of the    *)
(* same name.  Sources are given as lists; the harness presents them as    *)
(* list, tuple, generator, Seq, Block, range.                              *)
(***************************************************************************)
EXTENDS Lists

(* the value of source |> stage1 |> stage2 ...; a stage is a tuple: name, further arguments *)
RECURSIVE RunStages(_, _)
RunStages(v, stages) ==
  IF stages = <<>> THEN v
  ELSE LET st == Head(stages)[2]
           e == ListEval(st[1][2], <<v>> \o Tail(st), List)
       IN  IF IsRaise(e.ret) THEN e.ret ELSE RunStages(e.ret, Tail(stages))

SeqEval(op, a) ==
  LET xs == IF a = <<>> THEN <<>> ELSE Elems(a[1]) IN
  CASE op = "max_by"  -> LET r == RunAll(a[2][2], Ones(xs)) IN
                         IF r.failed THEN Finish(r, None) ELSE Finish(r, IF xs = <<>> THEN Raise("ValueError") ELSE r.rs[MaxIdx(r.rs)])
    [] op = "min_by"  -> LET r == RunAll(a[2][2], Ones(xs)) IN
                         IF r.failed THEN Finish(r, None) ELSE Finish(r, IF xs = <<>> THEN Raise("ValueError") ELSE r.rs[MinIdx(r.rs)])
    [] op = "seq.tail" -> R(List(IF xs = <<>> THEN <<>> ELSE Tail(xs)))
    [] op = "length"  -> R(I(Len(xs)))
    [] op = "to_list" -> R(Block(xs))
    [] op = "delay"   -> LET r == Call(a[1][2], <<>>) IN [ret |-> r, calls |-> << <<a[1][2], <<>> >> >>]
    [] op = "infinite" -> LET r == RunAll(a[2][2], [i \in 1..a[1][2] |-> <<I(i - 1)>>]) IN Finish(r, List(r.rs))
    [] op = "identity" -> R(List(xs))
    [] op = "pipeline" -> [ret |-> RunStages(a[1], Tail(a)), calls |-> <<>>]
    [] OTHER -> ListEval(op, a, List)

Ls(S) == { List(s) : s \in S }
Unary(ops, S, fns) == { <<op, <<b, f>> >> : op \in ops, b \in Ls(S), f \in FnS(fns) }
Plain(ops, S) == { <<op, <<b>> >> : op \in ops, b \in Ls(S) }

SeqCasesN(n) ==
  LET N == NumSeqs(n)
      N2 == NumSeqs(2)
      A == AnySeqs
  IN
  UNION {
    Unary({"map"}, N, {"f", "inc", "none", "boom", "boom_at2", "boomV"}), Unary({"map"}, A, {"f", "id", "none", "nothing", "wk"}),
    Unary({"mapi"}, N, {"f", "pair", "none"}), Unary({"mapi"}, A, {"pair", "snd", "wk", "boom"}),
    Unary({"starmap", "map2"}, TupSeqs, {"f", "pair", "none", "wk", "boomT"}), Unary({"map3", "starmap"}, Tup3Seqs, {"f", "pair", "boom"}),
    Unary({"choose"}, N, {"choose_pos", "choose_even", "nothing", "some_none", "boom", "some_f"}), Unary({"choose"}, A, {"some_id", "some_none", "some_wk", "nothing"}),
    Unary({"collect"}, N, {"dupL", "emptyL", "posL", "boom", "dupB"}), Unary({"collect"}, A, {"dupL", "emptyL"}),
    Unary({"filter"}, N, {"pos", "even", "pT", "pF", "p1", "pS", "two", "pL", "none", "estr", "boom", "boom_key2"}), Unary({"filter"}, A, {"pT", "pF", "p1", "pS", "two", "pL", "zero", "boomV"}),
    { <<"fold", <<b, f, s>> >> : b \in Ls(N), f \in FnS({"f", "sub", "mul10add"}), s \in {I(0), I(7)} },
    { <<op, <<b, f, s>> >> : op \in {"fold", "fold_back", "scan"}, b \in Ls(N2 \cup A), f \in FnS({"none", "snd", "id", "wk", "boom"}), s \in {None, Nothing, List(<<>>)} },
    { <<op, <<b, f, s>> >> : op \in {"fold_back", "scan"}, b \in Ls(N), f \in FnS({"f", "sub", "mul10add"}), s \in {I(0), I(7)} },
    Unary({"iter"}, N, {"f", "none", "pF", "boom", "boom_at2"}), Unary({"iter"}, A, {"f", "wk"}),
    { <<"append", <<b>> >> : b \in Ls(N2 \cup A) }, { <<"append", <<b, c>> >> : b, c \in Ls(N2 \cup A) }, { <<"append", <<b, c, d>> >> : b, c, d \in Ls(NumSeqs(1)) },
    { <<"concat", <<List(<<>>)>> >> }, { <<"concat", <<List(<<b, c>>)>> >> : b, c \in Ls(N2) },
    { <<"concat", <<List(<<b, List(<<None>>), c>>)>> >> : b, c \in Ls(NumSeqs(1) \cup A) },
    Plain({"head", "seq.tail", "length", "to_list", "identity", "pairwise"}, N \cup A \cup TokSeqs),
    Plain({"sum"}, N \cup AmtSeqs), Plain({"max", "min"}, N \cup TokSeqs),
    Unary({"sum_by"}, N, {"inc", "neg", "boom", "boom_key2", "amt"}), Unary({"sum_by"}, AmtSeqs, {"id"}),
    Unary({"max_by", "min_by"}, N, {"neg", "mod2", "inc", "zero", "boom"}), Unary({"max_by", "min_by"}, TokSeqs, {"id", "key"}),
    { <<op, <<b, i>> >> : op \in {"skip", "take"}, b \in Ls(N \cup A), i \in Counts },
    Unary({"try_find_index"}, N, {"is2", "even", "pos", "pT", "pF", "p1", "pS", "two", "pL", "none", "boom", "boom_key2"}), Unary({"try_find_index"}, A, {"pT", "pF", "zero", "pS", "two", "pL"}),
    Unary({"try_pick"}, N, {"pick2", "choose_pos", "choose_even", "nothing", "some_none", "boom", "boomV"}), Unary({"try_pick"}, A, {"some_id", "nothing", "some_none", "some_wk"}),
    { <<"zip", <<b, c>> >> : b, c \in Ls(N2 \cup A \cup {<<I(1), I(2), I(0)>>}) },
    { <<"of", x>> : x \in N2 \cup A },
    { <<"singleton", <<x>> >> : x \in {None, I(0), Nothing, Weird(1), List(<<I(1), I(2)>>), Str("ab")} },
    { <<"empty", <<>> >> },
    { <<"unfold", <<I(k), f>> >> : k \in 0..4, f \in FnS({"unf", "unf_boom", "nothing", "boom"}) },
    { <<"delay", <<f>> >> : f \in FnS({"thunkL", "boom", "emptyT"}) },
    { <<"infinite", <<I(k), f>> >> : k \in 0..4, f \in FnS({"f", "id", "none", "wk", "boom_at2"}) },
    { <<"range1", <<I(k)>> >> : k \in (-1)..4 }, { <<"range2", <<I(j), I(k)>> >> : j, k \in (-1)..3 },
    { <<"range3", <<I(j), I(k), I(s)>> >> : j, k \in (-2)..4, s \in {-2, -1, 1, 2, 3} }
  }
=============================================================================
