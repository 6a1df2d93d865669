----------------------------- MODULE ArraySpec -----------------------------
(***************************************************************************)
(* TypedArray: a mutable sequence.  A heap of arrays (and plain lists):    *)
(* functional operations add a new array, mutating operations change the   *)
(* one they are applied to and nothing else.                               *)
(*                                                                         *)
(* ArrEval gives [ret, calls, self]: self is the new content of the first  *)
(* argument (unchanged for functional operations).                         *)
(***************************************************************************)
EXTENDS Lists

Pos(xs, t) == LET s == {i \in 1..Len(xs) : PyEq(xs[i], t)} IN IF s = {} THEN 0 ELSE MinOf(s)
RemoveAt(xs, i) == SubSeq(xs, 1, i - 1) \o SubSeq(xs, i + 1, Len(xs))
InsertAt(xs, i, x) == SubSeq(xs, 1, i - 1) \o <<x>> \o SubSeq(xs, i, Len(xs))
Idx(xs, k) == IF k < 0 THEN Len(xs) + k + 1 ELSE k + 1      \* 1-based position, valid iff in 1..Len(xs)
Clamp(xs, k) == LET n == Len(xs) IN IF k < 0 THEN (IF n + k < 0 THEN 0 ELSE n + k) ELSE Min2(k, n)
SliceBounds(xs, a, b) ==
  LET s == IF a = None THEN 0 ELSE Clamp(xs, a[2])
      e == IF b = None THEN Len(xs) ELSE Clamp(xs, b[2])
  IN  <<s, IF e < s THEN s ELSE e>>

MutOps == {"setitem", "delitem", "insert", "push", "extend", "iadd", "pop", "pop_at", "remove", "reverse", "clear", "setslice", "delslice", "setslice3", "delslice3", "extend_self"}
RECURSIVE Drop_(_, _, _)
Drop_(xs, ix, i) == IF i > Len(xs) THEN <<>> ELSE (IF i - 1 \in ix THEN <<>> ELSE <<xs[i]>>) \o Drop_(xs, ix, i + 1)
SetOf(s) == { s[i] : i \in 1..Len(s) }

MutEval(op, a) ==
  LET xs == Elems(a[1])
      tag == a[1][1]
      Done(ret, new) == [ret |-> ret, calls |-> <<>>, self |-> <<tag, new>>]
      Fail(e) == [ret |-> Raise(e), calls |-> <<>>, self |-> a[1]]
  IN
  CASE op = "setitem" -> LET i == Idx(xs, a[2][2]) IN IF i \in 1..Len(xs) THEN Done(None, [xs EXCEPT ![i] = a[3]]) ELSE Fail("IndexError")
    [] op = "delitem" -> LET i == Idx(xs, a[2][2]) IN IF i \in 1..Len(xs) THEN Done(None, RemoveAt(xs, i)) ELSE Fail("IndexError")
    [] op = "insert"  -> Done(None, InsertAt(xs, Clamp(xs, a[2][2]) + 1, a[3]))
    [] op = "push"    -> Done(None, Append(xs, a[2]))
    [] op \in {"extend", "iadd"} -> Done(None, xs \o Elems(a[2]))
    [] op = "extend_self" -> Done(None, xs \o xs)
    [] op = "pop"     -> IF xs = <<>> THEN Fail("IndexError") ELSE Done(xs[Len(xs)], SubSeq(xs, 1, Len(xs) - 1))
    [] op = "pop_at"  -> LET i == Idx(xs, a[2][2]) IN IF i \in 1..Len(xs) THEN Done(xs[i], RemoveAt(xs, i)) ELSE Fail("IndexError")
    [] op = "remove"  -> LET i == Pos(xs, a[2]) IN IF i = 0 THEN Fail("ValueError") ELSE Done(None, RemoveAt(xs, i))
    [] op = "reverse" -> Done(None, Rev(xs))
    [] op = "clear"   -> Done(None, <<>>)
    [] op = "setslice" -> LET s == SliceBounds(xs, a[2], a[3]) IN
                          Done(None, SubSeq(xs, 1, s[1]) \o Elems(a[4]) \o SubSeq(xs, s[2] + 1, Len(xs)))
    [] op = "delslice" -> LET s == SliceBounds(xs, a[2], a[3]) IN
                          Done(None, SubSeq(xs, 1, s[1]) \o SubSeq(xs, s[2] + 1, Len(xs)))

    (* the step is not 1: as many new elements as selected ones *)
    [] op = "setslice3" -> LET ix == SliceIx(xs, a[2], a[3], a[4][2])
                               new == Elems(a[5]) IN
                           IF Len(new) # Len(ix) THEN Fail("ValueError")
                           ELSE Done(None, [i \in 1..Len(xs) |-> IF i - 1 \in SetOf(ix) THEN new[CHOOSE j \in 1..Len(ix) : ix[j] = i - 1] ELSE xs[i]])
    [] op = "delslice3" -> Done(None, Drop_(xs, SetOf(SliceIx(xs, a[2], a[3], a[4][2])), 1))

RECURSIVE Repeated(_, _)
Repeated(xs, k) == IF k = 0 THEN <<>> ELSE xs \o Repeated(xs, k - 1)

ReadEval(op, a) ==
  LET xs == Elems(a[1]) IN
  CASE op = "getitem" -> R(LET i == Idx(xs, a[2][2]) IN IF i \in 1..Len(xs) THEN xs[i] ELSE Raise("IndexError"))
    [] op = "slice"   -> R(List(PySlice(xs, a[2], a[3])))
    [] op = "slice3"  -> R(List(PySlice3(xs, a[2], a[3], a[4][2])))
    [] op = "index"   -> R(LET i == Pos(xs, a[2]) IN IF i = 0 THEN Raise("ValueError") ELSE I(i - 1))
    [] op = "count"   -> R(I(Cardinality({i \in 1..Len(xs) : PyEq(xs[i], a[2])})))
    [] op = "reversed" -> R(List(Rev(xs)))
    (* collect with a callback that hands out an array that is already there *)
    [] op = "collect_reg" -> R(Arr(Repeated(Elems(a[2]), Len(xs))))

ArrEval(op, a) ==
  IF op \in MutOps THEN MutEval(op, a)
  ELSE LET e == IF op \in {"getitem", "slice", "slice3", "index", "count", "reversed", "collect_reg"} THEN ReadEval(op, a) ELSE ListEval(op, a, Arr)
       IN  [ret |-> e.ret, calls |-> e.calls, self |-> IF a = <<>> THEN None ELSE a[1]]

(***************************************************************************)
(* Element types.  Numbers beyond TLC's range are named; Rank orders them. *)
(***************************************************************************)
Points == <<"-2^63-1", "-2^63", "-2^31", "-2^15-1", "-2^15", "-129", "-128", "-1", "0", "1", "127", "128", "255", "256",
            "2^15-1", "2^15", "2^16-1", "2^16", "2^31-1", "2^63-1", "2^63", "2^64-1", "2^64">>
RankOf(p) == CHOOSE i \in 1..Len(Points) : Points[i] = p
Rng(lo, hi) == [lo |-> RankOf(lo), hi |-> RankOf(hi)]
(* Int32/Uint32 are the platform's C long: only values every platform accepts or rejects are used *)
Range(tc) ==
  CASE tc = "Byte"  -> Rng("0", "255")        [] tc = "Uint8"  -> Rng("0", "255")
    [] tc = "Int8"  -> Rng("-128", "127")     [] tc = "Int16"  -> Rng("-2^15", "2^15-1")
    [] tc = "Uint16" -> Rng("0", "2^16-1")    [] tc = "Int32"  -> Rng("-2^31", "2^31-1")
    [] tc = "Uint32" -> Rng("0", "2^31-1")    [] tc = "Int64"  -> Rng("-2^63", "2^63-1")
    [] tc = "Uint64" -> Rng("0", "2^64-1")    [] tc \in {"Any", "Float", "Double"} -> [lo |-> 0, hi |-> 99]
TypeCodes == {"Byte", "Uint8", "Int8", "Int16", "Uint16", "Int32", "Uint32", "Int64", "Uint64", "Any", "Float", "Double"}
Fits(tc, p) == RankOf(p) >= Range(tc).lo /\ RankOf(p) <= Range(tc).hi
Unsure(tc, p) == \/ tc \in {"Int32", "Uint32"} /\ ~Fits(tc, p) /\ RankOf(p) > RankOf("0") /\ RankOf(p) < RankOf("2^64")
                 \/ tc = "Int32" /\ p = "-2^63"
TypeEval(op, a) ==      \* a: type code, value, and the answer: accepted or rejected
  R(Str(IF Fits(a[1][2], a[2][2]) THEN "accepted" ELSE "rejected"))
TypeCases ==
  { <<op, <<Str(tc), <<"num", p>> >> >> : op \in {"tc.new", "tc.set", "tc.filter", "tc.filter_empty", "tc.insert"}, tc \in TypeCodes, p \in {Points[i] : i \in 1..Len(Points)} }
TypeCasesOk == { c \in TypeCases : ~Unsure(c[2][1][2], c[2][2][2]) }
ElemCasesOk == { <<"tc.elem", c[2]>> : c \in {d \in TypeCasesOk : d[1] = "tc.new" /\ d[2][1][2] \notin {"Any", "Byte"}} }

(***************************************************************************)
Arrs(S) == { Arr(s) : s \in S }
Un(ops, S, fns) == { <<op, <<b, f>> >> : op \in ops, b \in Arrs(S), f \in FnS(fns) }
ArrCasesN(n) ==
  LET N == NumSeqs(n)
      N2 == NumSeqs(2)
      A == AnySeqs
      TF == {Bool(TRUE), Bool(FALSE)}
      Ix == {I(k) : k \in (-4)..4}
      Sl == {None} \cup {I(k) : k \in {-2, -1, 0, 1, 2, 3}}
  IN
  UNION {
    Un({"map"}, N, {"f", "inc", "none", "boom", "boom_at2"}), Un({"map"}, A, {"f", "id", "none", "nothing", "wk"}),
    Un({"choose"}, N, {"choose_pos", "choose_even", "nothing", "some_none", "boom", "some_f"}), Un({"choose"}, A, {"some_id", "some_wk", "nothing"}),
    Un({"collect"}, N, {"dupA", "emptyA", "posA", "boom"}), Un({"collect"}, A, {"dupA"}),
    Un({"filter"}, N, {"pos", "even", "pT", "pF", "p1", "pS", "two", "pL", "none", "boom", "boom_key2"}), Un({"filter"}, A, {"pT", "pF", "p1", "pS", "two", "pL"}),
    Un({"forall"}, N, {"pos", "even", "pT", "p1", "pS", "two", "pL", "zero", "none", "boom", "isnt1"}), Un({"forall"}, A, {"pT", "pF"}),
    { <<"fold", <<b, f, s>> >> : b \in Arrs(N), f \in FnS({"f", "sub", "mul10add"}), s \in {I(0), I(7)} },
    { <<"fold", <<b, f, s>> >> : b \in Arrs(N2 \cup A), f \in FnS({"none", "snd", "id", "wk", "boom"}), s \in {None, Nothing} },
    { <<op, <<b>> >> : op \in {"head", "tail", "try_head", "is_empty", "len", "iterate", "reversed"}, b \in Arrs(N \cup A \cup TokSeqs) },
    { <<"sum", <<b>> >> : b \in Arrs(N) },
    { <<"indexed", <<b, s>> >> : b \in Arrs(N2 \cup A), s \in {I(0), I(1), I(7), I(-2)} },
    { <<op, <<b, i>> >> : op \in {"getitem"}, b \in Arrs(N \cup A), i \in Ix },
    { <<"item", <<b, i>> >> : b \in Arrs(N \cup A), i \in {I(k) : k \in 0..4} },
    { <<op, <<b, i>> >> : op \in {"skip", "take", "skip_last", "take_last"}, b \in Arrs(N \cup A), i \in Counts },
    { <<"sort", <<b, r>> >> : b \in Arrs(N \cup TokSeqs), r \in TF },
    { <<"sort_with", <<b, f, r>> >> : b \in Arrs(N), f \in FnS({"id", "neg", "mod2", "zero", "boom"}), r \in TF },
    { <<"sort_with", <<b, f, r>> >> : b \in Arrs(TokSeqs), f \in FnS({"key", "id", "zero"}), r \in TF },
    Un({"sum_by"}, N, {"inc", "neg", "boom", "boom_key2"}),
    { <<op, <<b, x>> >> : op \in {"contains", "index", "count", "remove"}, b \in Arrs(N), x \in {I(0), I(1), I(2), I(5)} },
    { <<op, <<b, x>> >> : op \in {"contains", "index", "count", "remove"}, b \in Arrs(TokSeqs), x \in {Tok(1, 9), Tok(2, 2), Tok(7, 1)} },
    { <<"slice", <<b, x, y>> >> : b \in Arrs(N), x, y \in Sl },
    { <<"slice3", <<b, x, y, k>> >> : b \in Arrs({<<>>, <<I(0)>>, <<I(0), I(1)>>, <<I(4), I(3), I(2), I(1), I(0)>>}),
                                     x, y \in {None} \cup {I(k) : k \in {-6, -3, -1, 0, 1, 3, 7}}, k \in {I(j) : j \in {-3, -2, -1, 1, 2, 3}} },
    { <<"eq", <<b, c>> >> : b, c \in Arrs(N2 \cup {<<I(1), I(2), I(0)>>}) },
    { <<"of", x>> : x \in N2 \cup A }, { <<"of_seq", <<List(x)>> >> : x \in N2 \cup A }, { <<"of_seq", <<b>> >> : b \in Arrs(N2) },
    { <<"of_option", <<o>> >> : o \in {Nothing, Some(None), Some(I(0)), Some(Nothing), Some(Weird(1))} },
    { <<"singleton", <<x>> >> : x \in {None, I(0), Nothing, Weird(1), List(<<I(1), I(2)>>)} },
    { <<"empty", <<>> >> },
    { <<"unfold", <<I(k), f>> >> : k \in 0..4, f \in FnS({"unf", "unf_boom", "nothing", "boom"}) },
    { <<"setitem", <<b, i, x>> >> : b \in Arrs(N), i \in Ix, x \in {I(0), I(9)} },
    { <<op, <<b, i>> >> : op \in {"delitem", "pop_at"}, b \in Arrs(N), i \in Ix },
    { <<"insert", <<b, i, x>> >> : b \in Arrs(N), i \in Ix, x \in {I(9)} },
    { <<op, <<b, x>> >> : op \in {"push"}, b \in Arrs(N), x \in {I(0), I(9)} },
    { <<op, <<b, List(c)>> >> : op \in {"extend", "iadd"}, b \in Arrs(N2), c \in N2 },
    { <<op, <<b, c>> >> : op \in {"extend", "iadd"}, b, c \in Arrs(N2) },
    { <<op, <<b>> >> : op \in {"pop", "reverse", "clear", "extend_self"}, b \in Arrs(N) },
    { <<"setslice", <<b, x, y, List(c)>> >> : b \in Arrs(N2), x, y \in Sl, c \in {<<>>, <<I(9)>>, <<I(8), I(9)>>} },
    { <<"delslice", <<b, x, y>> >> : b \in Arrs(N), x, y \in Sl },
    { <<"delslice3", <<b, x, y, k>> >> : b \in Arrs({<<>>, <<I(0)>>, <<I(0), I(1)>>, <<I(4), I(3), I(2), I(1), I(0)>>}),
                                        x, y \in {None} \cup {I(k) : k \in {-6, -3, -1, 0, 1, 3, 7}}, k \in {I(j) : j \in {-3, -2, -1, 2, 3}} },
    { <<"setslice3", <<b, x, y, k, List(c)>> >> : b \in Arrs({<<>>, <<I(0), I(1)>>, <<I(4), I(3), I(2), I(1), I(0)>>}),
                                                 x, y \in {None} \cup {I(k) : k \in {-6, -3, -1, 0, 1, 3, 7}}, k \in {I(j) : j \in {-3, -2, -1, 2, 3}},
                                                 c \in {<<>>, <<I(9)>>, <<I(8), I(9)>>, <<I(7), I(8), I(9)>>} }
  }
=============================================================================
