----------------------------- MODULE SerialGen -----------------------------
(* All types of two levels of Option/Block/Result over the base types, with their values. *)
EXTENDS Serial
CONSTANT Rich
VARIABLES st, out
Base == { IntT, StrT, <<"bool">>, <<"nat">>, <<"date">>, <<"flt">> }
Other == { <<"pair", IntT, StrT>>, <<"lst", IntT>>, <<"dic", StrT>>, Model("M") }
Wrap(S) == { Opt(T) : T \in S } \cup { Blk(T) : T \in S } \cup { Res(T, StrT) : T \in S } \cup { Res(IntT, T) : T \in S }
Inner == IF Rich THEN Base \cup Other ELSE { IntT, StrT, <<"date">>, Model("M") }
L1 == Wrap(Base \cup Other) \cup { Opt(<<"any">>), Blk(<<"any">>), Res(<<"any">>, <<"any">>) }
L2 == Wrap(Wrap(Inner))
Outer == { <<"lst", T>> : T \in Wrap(Inner) } \cup { <<"dic", T>> : T \in Wrap(Inner) } \cup { <<"pair", T, U>> : T \in {Opt(IntT), Res(IntT, StrT)}, U \in Wrap({StrT}) }
Models == { Model("M"), Model("N"), Model("Tree") }

RECURSIVE Vals(_, _)
Two(S) == IF Cardinality(S) <= 2 THEN S ELSE LET a == CHOOSE x \in S : TRUE IN {a, CHOOSE x \in S \ {a} : TRUE}
Seqs(S) == { <<>> } \cup { <<x>> : x \in S } \cup { <<x, y>> : x, y \in Two(S) }
RECURSIVE Tuples(_, _, _)
Tuples(fs, i, d) == IF i > Len(fs) THEN { <<>> } ELSE { << <<fs[i][1], x>> >> \o r : x \in Vals(fs[i][2], d), r \in Tuples(fs, i + 1, d) }
Vals(T, d) ==
  LET k == T[1] IN
  CASE k = "int" -> {I(0), I(7)}
    [] k = "nat" -> {I(0), I(3)}
    [] k = "str" -> {Str(""), Str("a")}
    [] k = "bool" -> {Bool(FALSE), Bool(TRUE)}
    [] k = "date" -> {Date("2020-01-02")}
    [] k = "flt" -> {Flt("1.5"), Flt("0.0")}
    [] k = "any" -> {I(0), Str(""), List(<<I(1)>>)}
    [] k = "opt" -> {Nothing} \cup { Some(x) : x \in Vals(T[2], d - 1) }
    [] k = "blk" -> { Block(s) : s \in Seqs(Vals(T[2], d - 1)) }
    [] k = "lst" -> { List(s) : s \in Seqs(Vals(T[2], d - 1)) }
    [] k = "pair" -> { Tup(<<x, y>>) : x \in Two(Vals(T[2], d)), y \in Two(Vals(T[3], d)) }
    [] k = "dic" -> { Dct(<<>>) } \cup { Dct(<< <<"k", x>> >>) : x \in Vals(T[2], d) } \cup { Dct(<< <<"", x>>, <<"z", x>> >>) : x \in Two(Vals(T[2], d)) }
    [] k = "res" -> { Ok(x) : x \in Vals(T[2], d - 1) } \cup { Err(x) : x \in Vals(T[3], d - 1) }
    [] k = "model" ->
         IF T[2] = "M" THEN { Mdl("M", << <<"x", I(5)>>, <<"y", y>> >>) : y \in {Nothing, Some(Str("")), Some(Str("a"))} }
         ELSE IF T[2] = "N" THEN { Mdl("N", << <<"m", m>>, <<"r", r>>, <<"b", b>> >>) :
                   m \in {Nothing, Some(Mdl("M", << <<"x", I(0)>>, <<"y", Some(Str(""))>> >>))},
                   r \in {Err(Str("e")), Ok(Mdl("M", << <<"x", I(1)>>, <<"y", Nothing>> >>))},
                   b \in {Block(<<>>), Block(<<Some(I(0)), Nothing>>)} }
         ELSE LET leaf(n) == Mdl("Tree", << <<"v", I(n)>>, <<"kids", Block(<<>>)>>, <<"o", Nothing>> >>)
              IN  { leaf(1), Mdl("Tree", << <<"v", I(2)>>, <<"kids", Block(<<leaf(0), leaf(3)>>)>>, <<"o", Some(leaf(4))>> >>),
                    Mdl("Tree", << <<"v", I(2)>>, <<"kids", Block(<<>>)>>, <<"o", Some(Mdl("Tree", << <<"v", I(7)>>, <<"kids", Block(<<leaf(8)>>)>>, <<"o", Nothing>> >>))>> >>) }
Init == out = <<>> /\ st \in L1 \cup L2 \cup Outer \cup Models
Next == out = <<>> /\ UNCHANGED st /\ \E v \in Vals(st, 3) : out' = <<v>>
Spec == Init /\ [][Next]_<<st, out>>
Law == out = <<>> \/ RoundTrip(st, out[1])
Emit == out = <<>> \/ PrintT("@" \o ToJson(Outcome(st, out[1], TRUE)))
=============================================================================
