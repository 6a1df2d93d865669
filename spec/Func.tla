-------------------------------- MODULE Func --------------------------------
(***************************************************************************)
(* Function composition and partial application.                           *)
(*                                                                         *)
(* Functions made by the library are terms that say how they were made:    *)
(*   <<"comp", fns>>                 compose(f1..fn)                       *)
(*   <<"scomp", fns>>                starcompose(f1..fn)                   *)
(*   <<"flip", f>>                                                         *)
(*   <<"part", kind, n, f, groups>>  a (partially applied) curried f       *)
(* with groups of arguments <<"grp", positional, keywords>>.               *)
(***************************************************************************)
EXTENDS Terms

Grp(pos, kw) == <<"grp", pos, kw>>
NoGrp == Grp(<<>>, <<>>)
Name(f) == f[2]

(* all positional arguments in order; the keyword arguments sorted by name *)
RECURSIVE Pos(_)
Pos(gs) == IF gs = <<>> THEN <<>> ELSE gs[1][2] \o Pos(Tail(gs))
RECURSIVE KwAll(_)
KwAll(gs) == IF gs = <<>> THEN <<>> ELSE gs[1][3] \o KwAll(Tail(gs))
KwNames == <<"a", "b", "c", "key", "z">>
SortKw(kw) == LET has(n) == \E i \in 1..Len(kw) : kw[i][1] = n
                  val(n) == kw[CHOOSE i \in 1..Len(kw) : kw[i][1] = n]
              IN  SelectSeq([i \in 1..Len(KwNames) |-> IF has(KwNames[i]) THEN val(KwNames[i]) ELSE <<>>], LAMBDA p : p # <<>>)
ArgsOf(pos, kw) == pos \o (IF kw = <<>> THEN <<>> ELSE << <<"kw", SortKw(kw)>> >>)

Curried(kind, n, f, gs) == <<"part", kind, n, f, gs>>
(* how many groups it takes *)
Needs(p) == IF p[2] = "flip" /\ p[3] # 0 THEN p[3] + 1 ELSE IF p[2] = "flip" THEN 1 ELSE p[3] + 1
(* the argument list of the direct call *)
Direct(p) ==
  IF p[2] = "flip" THEN ArgsOf(Pos(Tail(p[5])) \o p[5][1][2], KwAll(p[5])) ELSE ArgsOf(Pos(p[5]), KwAll(p[5]))

RECURSIVE ApplyTo(_, _, _), Through(_, _, _), StarThrough(_, _, _)
(* one call of any function value with a list of arguments (and keywords) *)
ApplyTo(f, pos, kw) ==
  CASE f[1] = "fn"    -> Then(f[2], ArgsOf(pos, kw), Same)
    [] f[1] = "comp"  -> Through(pos[1], f[2], 1)
    [] f[1] = "scomp" -> StarThrough(pos[1], f[2], 1)
    [] f[1] = "flip"  -> ApplyTo(f[2], <<pos[2], pos[1]>>, <<>>)
    [] f[1] = "part"  ->
         LET q == Curried(f[2], f[3], f[4], Append(f[5], Grp(pos, kw)))
         IN  IF Len(q[5]) < Needs(q) THEN R(q) ELSE Then(Name(q[4]), Direct(q), Same)
(* x through fns[i..], stopping only at an exception *)
Through(x, fns, i) ==
  IF i > Len(fns) THEN R(x)
  ELSE LET e == ApplyTo(fns[i], <<x>>, <<>>)
       IN  IF IsRaise(e.ret) THEN e ELSE PrependCalls(e.calls, Through(e.ret, fns, i + 1))
StarThrough(x, fns, i) ==
  IF i > Len(fns) THEN R(x)
  ELSE LET e == ApplyTo(fns[i], x[2], <<>>)
       IN  IF IsRaise(e.ret) THEN e ELSE PrependCalls(e.calls, StarThrough(e.ret, fns, i + 1))
(* x[1] then x[2].. into a curried function, then through the others *)
RECURSIVE Feed(_, _, _)
Feed(f, xs, i) ==
  IF i > Len(xs) THEN R(f)
  ELSE LET e == ApplyTo(f, <<xs[i]>>, <<>>)
       IN  IF IsRaise(e.ret) THEN e ELSE PrependCalls(e.calls, Feed(e.ret, xs, i + 1))
PipeN(xs, fns) ==
  IF fns = <<>> THEN R(xs)
  ELSE LET e == Feed(fns[1], xs[2], 1)
       IN  IF IsRaise(e.ret) THEN e ELSE PrependCalls(e.calls, Through(e.ret, Tail(fns), 1))

FuncEval(op, a) ==
  CASE op = "pipe"     -> Through(a[1], Tail(a), 1)
    [] op = "pipeN"    -> PipeN(a[1], Tail(a))
    [] op = "starpipe" -> IF Len(a) = 1 THEN R(a[1]) ELSE StarThrough(a[1], Tail(a), 1)
    [] op = "compose"  -> R(<<"comp", a>>)
    [] op = "starcompose" -> R(<<"scomp", a>>)
    [] op = "flip"     -> R(<<"flip", a[1]>>)
    [] op = "curry"    -> R(Curried("curry", a[1][2], a[2], <<>>))
    [] op = "curry_flip" -> R(Curried("flip", a[1][2], a[2], <<>>))
    [] op = "pipeable" -> R(Curried("flip", 1, a[1], <<a[2]>>))
    [] op = "call"     -> ApplyTo(a[1], a[2][2], a[2][3])
    [] op = "identity" -> R(a[1])
    [] op = "fst"      -> R(a[1][2][1])
    [] op = "snd"      -> R(a[1][2][2])
    [] op = "starid"   -> R(Tup(a))

----------------------------------------------------------------------------
Vals == {None, I(0), Tup(<<>>), Tup(<<I(1), I(2)>>), List(<<>>), Nothing, Some(None), Ok(I(1)), Err(None), Block(<<I(1)>>), Block(<<>>), Weird(1), Fn("g")}
Fs == { Fn(f) : f \in {"f", "g", "id", "none", "zero", "pair", "boom", "boomT", "some_id", "wk"} }
SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
Arg1 == {None, I(0), Tup(<<I(1)>>)}
Groups == { Grp(p, k) : p \in SeqsUpTo({None, I(1)}, 2), k \in {<<>>, << <<"a", I(7)>> >>, << <<"z", None>>, <<"key", I(0)>> >>} }
One(S) == { Grp(<<x>>, <<>>) : x \in S }
(* complete applications: curry(n) takes n one-argument groups and a last group *)
Complete(kind, n, f) ==
  IF kind = "flip"
  THEN { Curried("flip", n, f, <<g>> \o xs) : g \in Groups, xs \in [1..n -> One(Arg1)] }
  ELSE { Curried("curry", n, f, xs \o <<g>>) : g \in Groups, xs \in [1..n -> One(Arg1)] }
       \cup { Curried("curry", n, f, [i \in 1..n |-> IF i = k THEN Grp(<<I(5)>>, << <<"b", I(3)>> >>) ELSE Grp(<<None>>, <<>>)] \o <<g>>) : g \in Groups, k \in 1..n }
       \cup { Curried("curry", n, f, [i \in 1..n |-> Grp(<<I(i), I(i)>>, IF i = 1 THEN << <<"c", None>> >> ELSE <<>>)] \o <<g>>) : g \in Groups }
CurFn(n) == Curried("curry", n, Fn("f"), <<>>)
Cases(n) ==
  UNION {
    { <<"pipe", <<x>> \o fs>> : x \in Vals, fs \in SeqsUpTo(Fs, n) },
    { <<"starpipe", <<Tup(xs)>> \o fs>> : xs \in SeqsUpTo({None, I(1)}, 3), fs \in SeqsUpTo({Fn("pair"), Fn("f"), Fn("boom")}, 1) },
    { <<"starpipe", <<Tup(xs)>> \o fs>> : xs \in SeqsUpTo({None, I(1)}, 3), fs \in { q \o <<e>> : q \in {<<Fn("pair")>>, <<Fn("pair"), Fn("pair")>>, <<Fn("boom")>>}, e \in {Fn("f"), Fn("pair"), Fn("none"), Fn("boomT")} } },
    { <<"pipeN", <<Tup(xs)>> \o fs>> : xs \in [1..2 -> Arg1], fs \in { <<>> } \cup { <<CurFn(1)>> \o gs : gs \in SeqsUpTo({Fn("g"), Fn("none"), Fn("boom")}, 2) } },
    { <<"pipeN", <<Tup(xs)>> \o fs>> : xs \in [1..3 -> Arg1], fs \in { <<>> } \cup { <<CurFn(2)>> \o gs : gs \in SeqsUpTo({Fn("g"), Fn("none"), Fn("boom")}, 2) } },
    { <<"identity", <<x>> >> : x \in Vals },
    { <<op, <<Tup(<<x, y>>)>> >> : op \in {"fst", "snd"}, x, y \in Vals },
    { <<"starid", xs>> : xs \in SeqsUpTo({None, I(1), Tup(<<>>)}, 3) }
  }
=============================================================================
