------------------------------- MODULE Union -------------------------------
(***************************************************************************)
(* Tagged unions.  A value is <<"u", class, case, value>>.  The classes    *)
(* below exist on the Python side with the same declarations; More gives   *)
(* further declarations as [name, cases, family, frozen, ordered].         *)
(***************************************************************************)
EXTENDS Terms
CONSTANT More

U(c, k, v) == <<"u", c, k, v>>
MoreNames == { More[i].name : i \in 1..Len(More) }
MoreOf(c) == More[CHOOSE i \in 1..Len(More) : More[i].name = c]
Decl(c) ==
  CASE c \in MoreNames -> MoreOf(c).cases
    [] c \in {"Tri", "Tri2", "Sub"} -> <<"z", "a", "m">>
    [] c \in {"Mut", "MutE"} -> <<"b", "a">>
    [] c = "Plain"  -> <<"a", "b">>
    [] c = "One"    -> <<"only">>
    [] c = "Five"   -> <<"e", "d", "c", "b", "a">>
    [] c = "Option" -> <<"none", "some">>
    [] c \in {"Result", "Try"} -> <<"ok", "error">>
Family(c) == CASE c \in MoreNames -> MoreOf(c).family [] c = "Sub" -> "Tri" [] c = "Try" -> "Result" [] OTHER -> c
Frozen(c) == IF c \in MoreNames THEN MoreOf(c).frozen ELSE c \notin {"Mut", "MutE"}
Ordered(c) == IF c \in MoreNames THEN MoreOf(c).ordered ELSE c \notin {"Plain", "MutE"}
Classes == {"Tri", "Tri2", "Sub", "Mut", "MutE", "Plain", "One", "Five", "Option", "Result", "Try"}
Names(c) == {Decl(c)[i] : i \in 1..Len(Decl(c))}
IndexOf(c, k) == CHOOSE i \in 1..Len(Decl(c)) : Decl(c)[i] = k

RECURSIVE UEq(_, _), ULt(_, _)
UEq(a, b) ==
  IF a[1] = "u" /\ b[1] = "u" THEN Family(a[2]) = Family(b[2]) /\ a[3] = b[3] /\ UEq(a[4], b[4])
  ELSE IF a[1] \in {"tup", "list"} /\ b[1] = a[1] THEN Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : UEq(a[2][i], b[2][i])
  ELSE PyEq(a, b)
ULt(a, b) ==
  IF a[1] = "u" THEN
    LET i == IndexOf(a[2], a[3])
        j == IndexOf(b[2], b[3])
    IN  i < j \/ (i = j /\ ~UEq(a[4], b[4]) /\ ULt(a[4], b[4]))
  ELSE PyLt(a, b)

(* constructor: a sequence of <<name, value>> keyword arguments, in call order *)
Construct(c, kw) ==
  LET cs == SelectSeq(kw, LAMBDA p : p[1] # "tag")
      tags == SelectSeq(kw, LAMBDA p : p[1] = "tag")
  IN  IF Len(cs) # 1 THEN Raise("TypeError")
      ELSE IF cs[1][1] \notin Names(c) THEN Raise("TypeError")
      ELSE IF tags # <<>> /\ tags[1][2] # Str(cs[1][1]) THEN Raise("TypeError")
      ELSE U(c, cs[1][1], cs[1][2])

RECURSIVE Ins(_, _)
Ins(x, s) == IF s = <<>> THEN <<x>> ELSE IF ULt(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Ins(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Ins(s[Len(s)], Sorted(SubSeq(s, 1, Len(s) - 1)))

UnionEval(op, a) ==
  R(CASE op = "new"    -> Construct(a[1][2], a[2][2])
      [] op = "post"   -> LET u == Construct(a[1][2], a[2][2])   \* what the class's own __init__ sees
                          IN  List(IF u[1] = "u" THEN <<Tup(<<Str(u[3]), u[4]>>)>> ELSE <<>>)
      [] op = "positional" -> Raise("TypeError")
      [] op = "tag"    -> Str(a[1][3])
      [] op = "get"    -> IF a[2][2] = a[1][3] THEN a[1][4] ELSE Raise("AttributeError")
      [] op = "match"  -> Tup(<<Str(a[1][3]), a[1][4]>>)
      [] op = "asdict" -> Tup(<<Tup(<<Str("tag"), Str(a[1][3])>>), Tup(<<Str(a[1][3]), a[1][4]>>)>>)
      [] op = "eq"     -> Bool(UEq(a[1], a[2]))
      [] op = "hash"   -> Str("alike")                       \* only asked for equal frozen values
      [] op = "lt"     -> IF a[2][1] = "u" /\ Family(a[1][2]) = Family(a[2][2]) /\ Ordered(a[1][2]) THEN Bool(ULt(a[1], a[2]))
                          ELSE Raise("TypeError")              \* not comparable
      [] op = "sorted" -> List(Sorted(a[1][2]))
      [] op \in {"copy", "deepcopy", "pickle"} -> a[1]
      [] op = "copy.list" -> List(<<a[1], a[1]>>)            \* the copy, and the copy after the original's payload was changed
      [] op \in {"set", "del"} -> Str("rejected"))           \* only asked for frozen unions; the operand must be unchanged

----------------------------------------------------------------------------
Simple == {None, I(0), I(1), Bool(FALSE), Str(""), Str("a")}
PairVals == {I(0), I(1), Bool(FALSE)}
(* Option's "none" case carries None *)
ValsOf(c, k, S) == IF c = "Option" /\ k = "none" THEN {None} ELSE S
All(C, S) == UNION { UNION { { U(c, k, v) : v \in ValsOf(c, k, S) } : k \in Names(c) } : c \in C }
Nested == { U(c, k, U("Tri", "a", v)) : c \in {"Tri", "Plain"}, k \in {"a"}, v \in {None, I(1), Tup(<<I(1), Str("a")>>)} }
          \cup { U("Option", "some", U("Option", k, None)) : k \in {"none", "some"} }
          \cup { U("Result", k, U("Result", j, I(0))) : k, j \in {"ok", "error"} }
AnyU == All(Classes, Simple) \cup Nested
Hashable == { u \in AnyU : Frozen(u[2]) }
(* payloads with something mutable at every depth *)
MutVals ==
  LET L == List(<<I(1)>>) IN
  { List(<<>>), L, List(<<I(1), List(<<I(2)>>)>>), List(<<List(<<L>>), L>>), Tup(<<L>>), Tup(<<L, I(2)>>), Tup(<<Tup(<<L, None>>), L>>), List(<<Tup(<<L>>)>>),
    U("Mut", "a", L), U("Tri", "a", Tup(<<L>>)), List(<<U("Mut", "b", L)>>), Tup(<<U("Option", "some", L), I(0)>>), U("Option", "some", L), U("Result", "ok", L), U("Result", "error", Tup(<<L>>)) }
Mutable == { U("Mut", k, v) : k \in {"a", "b"}, v \in MutVals } \cup { U(c[1], c[2], v) : c \in {<<"Option", "some">>, <<"Result", "ok">>, <<"Result", "error">>, <<"Tri", "a">>}, v \in MutVals }
Kw(c) ==
  LET ns == Names(c) \cup {"nosuch"}
      k1 == { << <<k, I(1)>> >> : k \in ns }
      k2 == { << <<k, I(1)>>, <<j, I(2)>> >> : k, j \in ns }
      kt == { << <<"tag", Str(t)>>, <<k, None>> >> : t \in ns \cup {"", "tag"}, k \in ns }
      tk == { << <<k, I(0)>>, <<"tag", Str(t)>> >> : t \in ns, k \in ns }
      t1 == { << <<"tag", Str(t)>> >> : t \in ns }
      k3 == { << <<"tag", Str(k)>>, <<k, I(1)>>, <<j, I(2)>> >> : k, j \in ns }
  IN  { s \in {<<>>} \cup k1 \cup k2 \cup kt \cup tk \cup t1 \cup k3 :
          \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1] }
Comparable(S) == { p \in S \X S : Family(p[1][2]) = Family(p[2][2]) /\ Ordered(p[1][2]) }
Cases ==
  UNION {
    UNION { { <<"new", <<Str(c), <<"kw", k>> >> >> : k \in Kw(c) } : c \in Classes },
    UNION { { <<"post", <<Str(c), <<"kw", k>> >> >> : k \in Kw(c) } : c \in {"One", "Five"} },
    { <<"positional", <<Str(c), I(1)>> >> : c \in Classes },
    { <<op, <<u>> >> : op \in {"tag", "match", "asdict", "copy", "deepcopy", "pickle"}, u \in AnyU \ Nested },
    { <<op, <<u>> >> : op \in {"tag", "match", "copy", "deepcopy", "pickle"}, u \in Nested },
    { <<op, <<u>> >> : op \in {"deepcopy", "pickle", "copy.list"}, u \in Mutable },
    UNION { { <<"get", <<u, Str(k)>> >> : k \in Names(u[2]) } : u \in AnyU },
    UNION { { <<op, <<u, Str(k)>> >> : op \in {"set", "del"}, k \in Names(u[2]) \cup {"tag"} } : u \in Hashable },
    { <<"eq", <<x, y>> >> : x, y \in All(Classes, PairVals) \cup Nested },
    { <<"eq", <<x, y>> >> : x \in All({"Tri", "Option", "Mut", "Result"}, PairVals), y \in {None, I(0), I(1), Tup(<<>>), Str("a")} },
    { <<"hash", <<x, y>> >> : <<x, y>> \in { p \in Hashable \X Hashable : UEq(p[1], p[2]) } },
    { <<"lt", <<p[1], p[2]>> >> : p \in Comparable(All(Classes, {I(0), I(1), I(2)}) \cup {u \in Nested : u[2] \in {"Result"}}) },
    { <<"lt", <<x, y>> >> : x \in All({"Tri", "Plain", "MutE", "Option"}, {I(0)}), y \in All({"Tri2", "Five", "Plain", "MutE"}, {I(0)}) \cup {None, I(0), Tup(<<>>)} },
    { <<"sorted", <<List(s)>> >> : s \in [1..3 -> All({"Tri"}, {I(0), I(1)})] \cup [1..3 -> All({"Option", "Five"}, {I(1)})] }
  }
CasesOk == { c \in Cases : c[1] # "sorted" \/ \A i, j \in 1..3 : c[2][1][2][i][2] = c[2][1][2][j][2] }
CasesLt == { c \in CasesOk : c[1] # "lt" \/ c[2][2][1] # "u" \/ Family(c[2][1][2]) # Family(c[2][2][2]) \/ ~Ordered(c[2][1][2]) \/ c[2][1][4][1] = c[2][2][4][1] \/ c[2][1][3] # c[2][2][3] }
CasesOver(regs) == CasesLt

(* laws: equality is an equivalence, order is a strict weak order compatible with it *)
Laws ==
  LET S == All({"Tri", "Sub", "Option"}, {I(0), I(1)}) IN
  /\ \A x \in S : UEq(x, x)
  /\ \A x, y \in S : UEq(x, y) => UEq(y, x)
  /\ \A x, y \in All({"Five", "Tri"}, {I(0), I(1)}) : x[2] = y[2] => (ULt(x, y) \/ ULt(y, x) \/ UEq(x, y)) /\ ~(ULt(x, y) /\ ULt(y, x)) /\ ~(ULt(x, y) /\ UEq(x, y))
=============================================================================
