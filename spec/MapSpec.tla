------------------------------ MODULE MapSpec ------------------------------
(***************************************************************************)
(* Map: a persistent dictionary traversed in ascending key order.  The     *)
(* term is ["map", <<<<key, value>>, ...>>] with strictly ascending keys.  *)
(***************************************************************************)
EXTENDS Lists

MapT(ps) == <<"map", ps>>
IndexOf(ps, k) == LET s == {i \in 1..Len(ps) : PyEq(ps[i][1], k)} IN IF s = {} THEN 0 ELSE MinOf(s)
Has(ps, k) == IndexOf(ps, k) # 0
Lookup(ps, k) == LET i == IndexOf(ps, k) IN IF i = 0 THEN Nothing ELSE Some(ps[i][2])
Put(ps, k, v) ==
  LET i == IndexOf(ps, k)
      below == Cardinality({j \in 1..Len(ps) : PyLt(ps[j][1], k)})
  IN  IF i # 0 THEN [ps EXCEPT ![i] = <<k, v>>]
      ELSE SubSeq(ps, 1, below) \o << <<k, v>> >> \o SubSeq(ps, below + 1, Len(ps))
Del(ps, k) == SelectSeq(ps, LAMBDA p : ~PyEq(p[1], k))
(* the bindings of a list of pairs: of several for one key, the last *)
OfPairs(kvs) ==
  LET n == Len(kvs)
      ks == [i \in 1..n |-> kvs[i][2][1]]
      ix == SortSeg(ks, FALSE, 1, n)
      last == SelectSeq([j \in 1..n |-> j], LAMBDA j : j = n \/ PyLt(ks[ix[j]], ks[ix[j + 1]]))
  IN  [j \in 1..Len(last) |-> kvs[ix[last[j]]][2]]
Pairs(ps) == [i \in 1..Len(ps) |-> Tup(ps[i])]
Ascending(ps) == \A i, j \in 1..Len(ps) : i < j => PyLt(ps[i][1], ps[j][1])
SameBindings(ps, qs) == Len(ps) = Len(qs) /\ \A i \in 1..Len(ps) : PyEq(ps[i][1], qs[i][1]) /\ PyEq(ps[i][2], qs[i][2])

Sel(ps, rs, b) == LET ix == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : Truthy(rs[i]) = b) IN [i \in 1..Len(ix) |-> ps[ix[i]]]

MapEval(op, a) ==
  LET ps == IF a = <<>> THEN <<>> ELSE Elems(a[1]) IN
  CASE op = "add"     -> R(MapT(Put(ps, a[2], a[3])))
    [] op = "remove"  -> R(MapT(Del(ps, a[2])))
    [] op = "change"  -> Then(a[3][2], <<Lookup(ps, a[2])>>, LAMBDA r : MapT(IF IsSome(r) THEN Put(ps, a[2], Val(r)) ELSE Del(ps, a[2])))
    [] op = "filter"  -> LET r == RunAll(a[2][2], ps) IN IF r.failed THEN Finish(r, None) ELSE Finish(r, MapT(Sel(ps, r.rs, TRUE)))
    [] op = "partition" -> LET r == RunAll(a[2][2], ps) IN
                           IF r.failed THEN Finish(r, None) ELSE Finish(r, Tup(<<MapT(Sel(ps, r.rs, TRUE)), MapT(Sel(ps, r.rs, FALSE))>>))
    [] op = "map"     -> LET r == RunAll(a[2][2], ps) IN
                         IF r.failed THEN Finish(r, None) ELSE Finish(r, MapT([i \in 1..Len(ps) |-> <<ps[i][1], r.rs[i]>>]))
    [] op = "of_seq"  -> R(MapT(OfPairs(ps)))
    [] op = "of_kw"   -> R(MapT(OfPairs(ps)))
    [] op = "empty"   -> R(MapT(<<>>))
    [] op \in {"find", "getitem"} -> R(IF Has(ps, a[2]) THEN Val(Lookup(ps, a[2])) ELSE Raise("KeyError"))
    [] op = "try_find" -> R(Lookup(ps, a[2]))
    [] op = "try_get_value" -> R(Tup(<<Bool(Has(ps, a[2])), List(IF Has(ps, a[2]) THEN <<Val(Lookup(ps, a[2]))>> ELSE <<>>)>>))
    [] op = "get"     -> R(IF Has(ps, a[2]) THEN Val(Lookup(ps, a[2])) ELSE a[3])
    [] op = "contains_key" -> R(Bool(Has(ps, a[2])))
    [] op = "try_pick" -> LET r == RunUntil(a[2][2], ps, IsSome) IN Finish(r, IF r.at = 0 THEN Nothing ELSE r.err)
    [] op = "pick"    -> LET r == RunUntil(a[2][2], ps, IsSome) IN Finish(r, IF r.at = 0 THEN Raise("KeyError") ELSE Val(r.err))
    [] op = "exists"  -> LET r == RunUntil(a[2][2], ps, Truthy) IN Finish(r, Bool(r.at # 0))
    [] op = "for_all" -> LET r == RunUntil(a[2][2], ps, LAMBDA t : ~Truthy(t)) IN Finish(r, Bool(r.at = 0))
    [] op = "fold"    -> FoldL(a[2][2], a[3], Pairs(ps))
    [] op = "fold_back" -> FoldR(a[2][2], a[3], Pairs(ps))
    [] op = "iterate" -> LET r == RunAll(a[2][2], ps) IN Finish(r, None)
    [] op = "to_list" -> R(Block(Pairs(ps)))
    [] op \in {"to_seq", "items"} -> R(List(Pairs(ps)))
    [] op = "keys"    -> R(List([i \in 1..Len(ps) |-> ps[i][1]]))
    [] op = "values"  -> R(List([i \in 1..Len(ps) |-> ps[i][2]]))
    [] op = "len"     -> R(I(Len(ps)))
    [] op = "is_empty" -> R(Bool(ps = <<>>))
    [] op = "eq"      -> R(Bool(SameBindings(ps, Elems(a[2]))))
    \* equal maps also have equal hashes (reported as: are the hashes equal or the maps different)
    [] op = "hash_ok" -> R(Bool(TRUE))
    [] op = "str_same" -> R(Bool(TRUE))

(* callbacks whose calls are compared in order; the others promise only their answer *)
OrderedOps == {"change", "fold", "fold_back", "iterate"}
OnceEachOps == {"map", "filter", "partition"}
=============================================================================
