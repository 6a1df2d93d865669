------------------------------- MODULE Lists -------------------------------
(***************************************************************************)
(* The list semantics shared by Block, Seq, AsyncSeq and TypedArray: what  *)
(* each named operation does on the plain list of the elements.            *)
(* Sequences of terms in, [ret, calls] out; C(_) builds the container.     *)
(***************************************************************************)
EXTENDS Terms

Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the recursions halve their input, so that long inputs can be evaluated, too *)
Mid(i, j) == (i + j) \div 2
RECURSIVE FlatSeg(_, _, _)
FlatSeg(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i] ELSE FlatSeg(ss, i, Mid(i, j)) \o FlatSeg(ss, Mid(i, j) + 1, j)
Flat(ss) == FlatSeg(ss, 1, Len(ss))
Prefix(xs, n) == SubSeq(xs, 1, Min2(n, Len(xs)))
Suffix(xs, n) == SubSeq(xs, n + 1, Len(xs))
Rev(xs) == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]

(* call fn on each argument tuple in order, stopping at the first raise *)
RunAll(fn, argss) ==
  LET rs  == [i \in 1..Len(argss) |-> Call(fn, argss[i])]
      bad == {i \in 1..Len(argss) : IsRaise(rs[i])}
      n   == IF bad = {} THEN Len(argss) ELSE MinOf(bad)
  IN  [rs |-> rs, failed |-> bad # {}, err |-> IF bad = {} THEN None ELSE rs[n],
       calls |-> [i \in 1..n |-> <<fn, argss[i]>>]]
(* ... stopping also after the first result for which Stop holds *)
RunUntil(fn, argss, Stop(_)) ==
  LET rs  == [i \in 1..Len(argss) |-> Call(fn, argss[i])]
      hit == {i \in 1..Len(argss) : IsRaise(rs[i]) \/ Stop(rs[i])}
      n   == IF hit = {} THEN Len(argss) ELSE MinOf(hit)
  IN  [at |-> IF hit = {} THEN 0 ELSE n,
       failed |-> hit # {} /\ IsRaise(rs[n]), err |-> IF hit = {} THEN None ELSE rs[n],
       calls |-> [i \in 1..n |-> <<fn, argss[i]>>]]

Finish(run, v) == [ret |-> IF run.failed THEN run.err ELSE v, calls |-> run.calls]
Ones(xs) == [i \in 1..Len(xs) |-> <<xs[i]>>]

(* the states after each of xs[i..j], in order; stops at the first raise; flip: the element comes first *)
RECURSIVE ScanSeg(_, _, _, _, _, _)
ScanSeg(fn, st, xs, i, j, flip) ==
  IF i > j THEN [last |-> st, sts |-> <<>>, calls |-> <<>>]
  ELSE IF i = j THEN
    LET args == IF flip THEN <<xs[i], st>> ELSE <<st, xs[i]>>
        r == Call(fn, args)
    IN  [last |-> r, sts |-> <<r>>, calls |-> << <<fn, args>> >>]
  ELSE
    LET a == ScanSeg(fn, st, xs, i, Mid(i, j), flip) IN
    IF IsRaise(a.last) THEN a
    ELSE LET b == ScanSeg(fn, a.last, xs, Mid(i, j) + 1, j, flip)
         IN  [last |-> b.last, sts |-> a.sts \o b.sts, calls |-> a.calls \o b.calls]
FoldL(fn, st, xs) == LET e == ScanSeg(fn, st, xs, 1, Len(xs), FALSE) IN [ret |-> e.last, calls |-> e.calls]
FoldR(fn, st, xs) ==           \* right to left, folder(element, state)
  LET e == ScanSeg(fn, st, Rev(xs), 1, Len(xs), TRUE) IN [ret |-> e.last, calls |-> e.calls]
ScanL(fn, st, xs) ==           \* all states of a left fold, in order
  LET e == ScanSeg(fn, st, xs, 1, Len(xs), FALSE) IN [ret |-> IF IsRaise(e.last) THEN e.last ELSE List(<<st>> \o e.sts), calls |-> e.calls]

RECURSIVE Unfold(_, _, _)
Unfold(fn, st, acc) ==
  LET r == Call(fn, <<st>>) IN
  IF IsRaise(r) THEN [ret |-> r, calls |-> << <<fn, <<st>> >> >>]
  ELSE IF ~IsSome(r) THEN [ret |-> List(acc), calls |-> << <<fn, <<st>> >> >>]
  ELSE PrependCalls(<< <<fn, <<st>> >> >>, Unfold(fn, Val(r)[2][2], Append(acc, Val(r)[2][1])))

(* stable sort of indices by keys; reverse keeps the order of equals *)
Before(keys, rev, a, b) == IF rev THEN PyLt(keys[b], keys[a]) ELSE PyLt(keys[a], keys[b])
RECURSIVE Rank(_, _, _, _, _, _), Merge(_, _, _, _), SortSeg(_, _, _, _)
Rank(keys, rev, x, ys, i, j) == \* how many of ys[i..j], which are sorted, come before x
  IF i > j THEN i - 1
  ELSE IF Before(keys, rev, ys[Mid(i, j)], x) THEN Rank(keys, rev, x, ys, Mid(i, j) + 1, j) ELSE Rank(keys, rev, x, ys, i, Mid(i, j) - 1)
Merge(keys, rev, xs, ys) ==     \* every index of xs is smaller than those of ys
  IF xs = <<>> THEN ys ELSE IF ys = <<>> THEN xs
  ELSE LET m == Mid(1, Len(xs))
           k == Rank(keys, rev, xs[m], ys, 1, Len(ys))
       IN  Merge(keys, rev, SubSeq(xs, 1, m - 1), SubSeq(ys, 1, k)) \o <<xs[m]>> \o Merge(keys, rev, SubSeq(xs, m + 1, Len(xs)), SubSeq(ys, k + 1, Len(ys)))
SortSeg(keys, rev, i, j) ==     \* sorted list of the indices i..j
  IF i > j THEN <<>> ELSE IF i = j THEN <<i>>
  ELSE Merge(keys, rev, SortSeg(keys, rev, i, Mid(i, j)), SortSeg(keys, rev, Mid(i, j) + 1, j))
Sorted(xs, keys, rev) == LET ix == SortSeg(keys, rev, 1, Len(xs)) IN [i \in 1..Len(xs) |-> xs[ix[i]]]

RECURSIVE SumSeg(_, _, _)
SumSeg(xs, i, j) == IF i > j THEN 0 ELSE IF i = j THEN (IF IsAmt(xs[i]) THEN xs[i][3] ELSE Num(xs[i])) ELSE SumSeg(xs, i, Mid(i, j)) + SumSeg(xs, Mid(i, j) + 1, j)
(* the sum of amounts of one kind and of integers is an amount of that kind *)
SumInts(xs) ==
  LET n == SumSeg(xs, 1, Len(xs))
      am == SelectSeq(xs, IsAmt)
  IN  IF am = <<>> THEN I(n) ELSE Amt(am[1][2], n)

(* first maximal / minimal element, as Python's max and min *)
RECURSIVE BestSeg(_, _, _, _)
BestSeg(ks, i, j, max) ==
  IF i = j THEN i
  ELSE LET a == BestSeg(ks, i, Mid(i, j), max)
           b == BestSeg(ks, Mid(i, j) + 1, j, max)
       IN  IF (IF max THEN PyLt(ks[a], ks[b]) ELSE PyLt(ks[b], ks[a])) THEN b ELSE a
MaxIdx(ks) == BestSeg(ks, 1, Len(ks), TRUE)
MinIdx(ks) == BestSeg(ks, 1, Len(ks), FALSE)

PySlice(xs, a, b) ==           \* xs[a:b] with Python's treatment of negative and large indices
  LET n == Len(xs)
      Lo(i) == IF i < 0 THEN (IF n + i < 0 THEN 0 ELSE n + i) ELSE Min2(i, n)
      s == IF a = None THEN 0 ELSE Lo(a[2])
      e == IF b = None THEN n ELSE Lo(b[2])
  IN  IF s >= e THEN <<>> ELSE SubSeq(xs, s + 1, e)

RangeSeq(a, b, c) ==           \* range(a, b, c)
  LET n == IF c > 0 THEN (IF b <= a THEN 0 ELSE (b - a + c - 1) \div c)
           ELSE (IF b >= a THEN 0 ELSE (a - b + (0 - c) - 1) \div (0 - c))
  IN  [i \in 1..n |-> I(a + (i - 1) * c)]

SliceIx(xs, a, b, k) ==        \* the positions (from 0) xs[a:b:k] selects, with Python's treatment of negative and large indices
  LET n  == Len(xs)
      lo == IF k > 0 THEN 0 ELSE -1
      hi == IF k > 0 THEN n ELSE n - 1
      Cl(i) == IF i < 0 THEN (IF n + i < lo THEN lo ELSE n + i) ELSE Min2(i, hi)
      s  == IF a = None THEN (IF k > 0 THEN lo ELSE hi) ELSE Cl(a[2])
      e  == IF b = None THEN (IF k > 0 THEN hi ELSE lo) ELSE Cl(b[2])
      ix == RangeSeq(s, e, k)
  IN  [i \in 1..Len(ix) |-> ix[i][2]]
PySlice3(xs, a, b, k) == LET ix == SliceIx(xs, a, b, k) IN [i \in 1..Len(ix) |-> xs[ix[i] + 1]]

(* elements of any sequence-like term *)
Elems(t) == t[2]

ListEval(op, a, C(_)) ==
  LET xs == Elems(a[1]) IN
  CASE op = "map"     -> LET r == RunAll(a[2][2], Ones(xs)) IN Finish(r, C(r.rs))
    [] op = "mapi"    -> LET r == RunAll(a[2][2], [i \in 1..Len(xs) |-> <<I(i - 1), xs[i]>>]) IN Finish(r, C(r.rs))
    [] op \in {"starmap", "map2", "map3"} ->
         LET r == RunAll(a[2][2], [i \in 1..Len(xs) |-> xs[i][2]]) IN Finish(r, C(r.rs))
    [] op = "choose"  -> LET r == RunAll(a[2][2], Ones(xs))
                             got == SelectSeq(r.rs, LAMBDA t : IsSome(t))
                         IN Finish(r, C([i \in 1..Len(got) |-> Val(got[i])]))
    [] op = "collect" -> LET r == RunAll(a[2][2], Ones(xs)) IN
                         IF r.failed THEN Finish(r, None)
                         ELSE Finish(r, C(Flat([i \in 1..Len(xs) |-> Elems(r.rs[i])])))
    [] op = "filter"  -> LET r == RunAll(a[2][2], Ones(xs))
                             ix == SelectSeq([i \in 1..Len(xs) |-> i], LAMBDA i : Truthy(r.rs[i]))
                         IN IF r.failed THEN Finish(r, None) ELSE Finish(r, C([i \in 1..Len(ix) |-> xs[ix[i]]]))
    [] op = "partition" ->
                         LET r == RunAll(a[2][2], Ones(xs))
                             Sel(b) == LET ix == SelectSeq([i \in 1..Len(xs) |-> i], LAMBDA i : Truthy(r.rs[i]) = b)
                                       IN C([i \in 1..Len(ix) |-> xs[ix[i]]])
                         IN IF r.failed THEN Finish(r, None) ELSE Finish(r, Tup(<<Sel(TRUE), Sel(FALSE)>>))
    [] op = "forall"  -> LET r == RunUntil(a[2][2], Ones(xs), LAMBDA t : ~Truthy(t))
                         IN Finish(r, Bool(r.at = 0))
    [] op = "iter"    -> LET r == RunAll(a[2][2], Ones(xs)) IN Finish(r, None)
    [] op = "fold"    -> FoldL(a[2][2], a[3], xs)
    [] op = "fold_back" -> FoldR(a[2][2], a[3], xs)
    [] op = "reduce"  -> IF xs = <<>> THEN R(Raise("ValueError")) ELSE FoldL(a[2][2], Head(xs), Tail(xs))
    [] op = "scan"    -> LET e == ScanL(a[2][2], a[3], xs) IN
                         [ret |-> IF IsRaise(e.ret) THEN e.ret ELSE C(e.ret[2]), calls |-> e.calls]
    [] op = "append"  -> R(C(Flat([i \in 1..Len(a) |-> Elems(a[i])])))
    [] op = "concat"  -> R(C(Flat([i \in 1..Len(xs) |-> Elems(xs[i])])))
    [] op = "cons"    -> R(C(<<a[2]>> \o xs))
    [] op = "head"    -> R(IF xs = <<>> THEN Raise("ValueError") ELSE Head(xs))
    [] op = "tail"    -> R(IF xs = <<>> THEN Raise("ValueError") ELSE C(Tail(xs)))
    [] op = "try_head" -> R(IF xs = <<>> THEN Nothing ELSE Some(Head(xs)))
    [] op = "indexed" -> R(C([i \in 1..Len(xs) |-> Tup(<<I(a[2][2] + i - 1), xs[i]>>)]))
    [] op = "item"    -> R(IF a[2][2] >= Len(xs) THEN Raise("IndexError") ELSE xs[a[2][2] + 1])
    [] op = "is_empty" -> R(Bool(xs = <<>>))
    [] op = "len"     -> R(I(Len(xs)))
    [] op = "skip"    -> R(C(Suffix(xs, a[2][2])))
    [] op = "take"    -> R(C(Prefix(xs, a[2][2])))
    [] op = "skip_last" -> R(C(Prefix(xs, IF a[2][2] > Len(xs) THEN 0 ELSE Len(xs) - a[2][2])))
    [] op = "take_last" -> R(C(IF a[2][2] > Len(xs) THEN xs ELSE Suffix(xs, Len(xs) - a[2][2])))
    [] op = "sort"    -> R(C(Sorted(xs, xs, a[2][2])))
    [] op = "sort_with" -> LET r == RunAll(a[2][2], Ones(xs)) IN
                           IF r.failed THEN Finish(r, None) ELSE Finish(r, C(Sorted(xs, r.rs, a[3][2])))
    [] op = "sum"     -> R(SumInts(xs))
    [] op = "sum_by"  -> LET r == RunAll(a[2][2], Ones(xs)) IN
                         IF r.failed THEN Finish(r, None) ELSE Finish(r, SumInts(r.rs))
    [] op = "max"     -> R(IF xs = <<>> THEN Raise("ValueError") ELSE xs[MaxIdx(xs)])
    [] op = "min"     -> R(IF xs = <<>> THEN Raise("ValueError") ELSE xs[MinIdx(xs)])
    [] op = "pairwise" -> R(C([i \in 1..(IF xs = <<>> THEN 0 ELSE Len(xs) - 1) |-> Tup(<<xs[i], xs[i + 1]>>)]))
    [] op = "zip"     -> LET ys == Elems(a[2]) IN R(C([i \in 1..Min2(Len(xs), Len(ys)) |-> Tup(<<xs[i], ys[i]>>)]))
    [] op = "try_find_index" ->
                         LET r == RunUntil(a[2][2], Ones(xs), Truthy)
                         IN Finish(r, IF r.at = 0 THEN Nothing ELSE Some(I(r.at - 1)))
    [] op = "try_pick" -> LET r == RunUntil(a[2][2], Ones(xs), IsSome)
                          IN Finish(r, IF r.at = 0 THEN Nothing ELSE r.err)
    [] op = "contains" -> R(Bool(\E i \in 1..Len(xs) : PyEq(xs[i], a[2])))
    [] op = "slice"   -> R(C(PySlice(xs, a[2], a[3])))
    [] op = "slice3"  -> R(C(PySlice3(xs, a[2], a[3], a[4][2])))
    [] op = "getitem" -> LET i == IF a[2][2] < 0 THEN Len(xs) + a[2][2] ELSE a[2][2] IN
                         R(IF i < 0 \/ i >= Len(xs) THEN Raise("IndexError") ELSE xs[i + 1])
    [] op = "iterate" -> R(List(xs))
    [] op = "eq"      -> R(Bool(PyEq(a[1], a[2])))
    [] op = "add"     -> R(C(xs \o Elems(a[2])))
    [] op = "match"   -> R(IF xs = <<>> THEN Tup(<<>>) ELSE Tup(<<Head(xs), List(Tail(xs))>>))
    \* constructors
    [] op = "of"      -> R(C(a))
    [] op = "of_seq"  -> R(C(xs))
    [] op = "of_option" -> R(C(IF IsSome(a[1]) THEN <<Val(a[1])>> ELSE <<>>))
    [] op = "singleton" -> R(C(<<a[1]>>))
    [] op = "empty"   -> R(C(<<>>))
    [] op = "unfold"  -> LET e == Unfold(a[2][2], a[1], <<>>) IN
                         [ret |-> IF IsRaise(e.ret) THEN e.ret ELSE C(e.ret[2]), calls |-> e.calls]
    [] op = "range1"  -> R(C(RangeSeq(0, a[1][2], 1)))
    [] op = "range2"  -> R(C(RangeSeq(a[1][2], a[2][2], 1)))
    [] op = "range3"  -> R(C(RangeSeq(a[1][2], a[2][2], a[3][2])))

(***************************************************************************)
(* Domains.                                                                *)
(***************************************************************************)
SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
NumSeqs(n) == SeqsUpTo({I(0), I(1), I(2)}, n)
AnySeqs == SeqsUpTo({None, I(0), Nothing, Weird(1)}, 2) \cup { <<Some(None), Tup(<<>>), Str("")>>, <<Weird(1), Weird(2), Weird(1)>> }
TokSeqs == { <<Tok(1, 1), Tok(1, 2)>>, <<Tok(2, 1), Tok(1, 1), Tok(2, 2), Tok(1, 2)>>, <<Tok(1, 2), Tok(1, 1), Tok(0, 1)>>,
             <<Tok(0, 1), Tok(0, 2), Tok(0, 3)>>, <<>>, <<Tok(3, 1), Tok(2, 1), Tok(1, 1), Tok(3, 2), Tok(2, 2)>> }
TupSeqs == { <<>>, <<Tup(<<I(1), I(2)>>)>>, <<Tup(<<None, I(0)>>), Tup(<<I(0), Str("")>>)>> }
(* summands of other types than int: amounts of one kind, alone or among integers *)
AmtSeqs == UNION { { <<Amt(k, 3)>>, <<Amt(k, 1), Amt(k, 2), Amt(k, -5)>>, <<I(2), Amt(k, 0)>>, <<Amt(k, 4), I(1), Amt(k, 4), I(0)>>, <<I(0), I(0), Amt(k, 0)>> } : k \in {"f", "o", "c"} }
Counts == { I(k) : k \in 0..5 }
FnS(names) == { Fn(x) : x \in names }
Tup3Seqs == { <<>>, <<Tup(<<I(1), I(2), I(0)>>)>>, <<Tup(<<None, I(0), Nothing>>), Tup(<<I(0), Str(""), I(3)>>)>> }
=============================================================================
