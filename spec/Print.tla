------------------------------- MODULE Print -------------------------------
(***************************************************************************)
(* Printed forms.  Text(t) is what str() gives for the value t, Shown(t)   *)
(* what repr() gives for a value inside a tuple, list or union.            *)
(*   <<"pr", i>>      an object whose str is "s<i>" and repr is "r<i>"      *)
(*   <<"suc", t>> <<"fail", t>>  Success and Failure                       *)
(*   <<"un", c, k, t>>  the union c with case k                            *)
(*   <<"upto", n>>    the Seq 0, 1, .. n-1;  <<"nats">> the infinite one   *)
(* Printing is a query: it changes nothing, and it asks a Seq for at most  *)
(* Limit + 1 elements.                                                     *)
(***************************************************************************)
EXTENDS Terms

Limit == 100
RECURSIVE Join(_, _, _, _)
Join(s, i, j, sep) ==
  IF i > j THEN ""
  ELSE IF i = j THEN s[i]
  ELSE LET m == (i + j) \div 2 IN Join(s, i, m, sep) \o sep \o Join(s, m + 1, j, sep)
JoinAll(s, sep) == Join(s, 1, Len(s), sep)
Cut(s) == IF Len(s) <= Limit THEN s ELSE Append(SubSeq(s, 1, Limit), "...")

RECURSIVE Text(_), Shown(_)
Texts(s) == TLCEval([i \in 1..Len(s) |-> Text(s[i])])
Showns(s) == TLCEval([i \in 1..Len(s) |-> Shown(s[i])])
Binding(p) == IF p[1][1] = "str" THEN "(\"" \o p[1][2] \o "\", " \o Text(p[2]) \o ")" ELSE "(" \o Text(p[1]) \o ", " \o Text(p[2]) \o ")"
Text(t) ==
  LET k == t[1] IN
  CASE k = "none" -> "None"
    [] k = "int"  -> ToString(t[2])
    [] k = "bool" -> IF t[2] THEN "True" ELSE "False"
    [] k \in {"str", "flt"} -> t[2]
    [] k = "pr"   -> "s" \o ToString(t[2])
    [] k = "nothing" -> "Nothing"
    [] k = "some" -> "Some " \o Text(t[2])
    [] k = "ok"   -> "Ok " \o Text(t[2])
    [] k = "error" -> "Error " \o Text(t[2])
    [] k = "suc"  -> "Success " \o Text(t[2])
    [] k = "fail" -> "Failure " \o Text(t[2])
    [] k = "block" -> "[" \o JoinAll(Texts(t[2]), ", ") \o "]"
    [] k = "arr"  -> "[|" \o JoinAll(Texts(t[2]), ", ") \o "|]"
    [] k = "seq"  -> "[" \o JoinAll(Cut(Texts(t[2])), "; ") \o "]"
    [] k = "upto" -> "[" \o JoinAll(Cut([i \in 1..(IF t[2] > Limit + 1 THEN Limit + 1 ELSE t[2]) |-> ToString(i - 1)]), "; ") \o "]"
    [] k = "nats" -> Text(<<"upto", Limit + 1>>)
    [] k = "map"  -> "map [" \o JoinAll([i \in 1..Len(t[2]) |-> Binding(t[2][i])], "; ") \o "]"
    [] OTHER -> Shown(t)
Shown(t) ==
  LET k == t[1] IN
  CASE k = "str"  -> "'" \o t[2] \o "'"
    [] k = "pr"   -> "r" \o ToString(t[2])
    [] k = "tup"  -> IF Len(t[2]) = 1 THEN "(" \o Shown(t[2][1]) \o ",)" ELSE "(" \o JoinAll(Showns(t[2]), ", ") \o ")"
    [] k = "list" -> "[" \o JoinAll(Showns(t[2]), ", ") \o "]"
    [] k = "un"   -> t[2] \o "(" \o t[3] \o "=" \o Shown(t[4]) \o ")"
    [] OTHER -> Text(t)

(* how many elements of the Seq printing may ask for *)
Asked(n) == IF n > Limit THEN Limit + 1 ELSE n
PrintEval(op, a) == R(Str(IF op = "str" THEN Text(a[1]) ELSE Shown(a[1])))

(* different values never print alike when their payloads print differently: the case is always visible *)
Wraps(t) == { Some(t), Ok(t), Err(t), <<"suc", t>>, <<"fail", t>>, Block(<<t>>), Arr(<<t>>) }
CaseVisible == \A t \in {I(0), None, Nothing, Str("")} : \A x, y \in Wraps(t) : Text(x) = Text(y) => x = y

Leaf == { None, I(0), I(7), Bool(FALSE), Str(""), Str("a b"), <<"pr", 1>>, Nothing, Tup(<<>>), Tup(<<I(1), Str("x"), <<"pr", 2>> >>), Tup(<< <<"pr", 2>> >>), List(<<Str("a"), None>>) }
One(S) == UNION { { Some(t), Ok(t), Err(t), <<"suc", t>>, <<"fail", t>> } : t \in S }
Seqs(S) == { <<>> } \cup { <<x>> : x \in S } \cup { <<x, y>> : x, y \in S } \cup { <<x, x, x>> : x \in S }
Keys == { I(0), I(3), Str("k"), Str("") }
Maps(S) == { <<"map", <<>> >> } \cup { <<"map", << <<k, v>> >> >> : k \in Keys, v \in S }
           \cup { <<"map", << <<I(1), v>>, <<I(2), w>> >> >> : v, w \in S } \cup { <<"map", << <<Str("a"), v>>, <<Str("b"), v>>, <<Str("c"), v>> >> >> : v \in S }
Colls(S) == { Block(s) : s \in Seqs(S) } \cup { Arr(s) : s \in Seqs(S) } \cup { SeqT(s) : s \in Seqs(S) } \cup Maps(S)
Few == { I(0), Str(""), <<"pr", 1>>, None }
L1 == One(Leaf) \cup Colls(Leaf)
L2 == One(One(Few) \cup Colls({I(1), <<"pr", 1>>})) \cup Colls(One({I(1), <<"pr", 1>>}) \cup {Nothing, Block(<<>>), SeqT(<<I(1), I(2)>>), Arr(<< <<"pr", 1>> >>), <<"map", <<>> >>})
Unions == { <<"un", c, k, t>> : c \in {"Tri", "One"}, k \in {"z", "a", "m", "only"}, t \in Leaf \ {Nothing} }
UnionsOk == { u \in Unions : (u[2] = "One") = (u[3] = "only") }
CasesOver(regs) ==
  { <<"str", <<t>> >> : t \in L1 \cup L2 \cup {Nothing} \cup { <<"upto", n>> : n \in {0, 1, 2, 99, 100, 101, 102, 150, 1000} } \cup { <<"nats">> } }
  \cup { <<"repr", <<t>> >> : t \in { t \in L1 \cup L2 : t[1] \in {"block", "arr", "seq", "map"} } \cup UnionsOk \cup { <<"upto", n>> : n \in {0, 3, 100, 101} } \cup { <<"nats">> } }
=============================================================================
