------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* pipeline, traverse, sequence and catch: composition of functions that   *)
(* return options or results.                                              *)
(***************************************************************************)
EXTENDS Terms

(* bind x through the functions fns[i..], stop at the first failure *)
RECURSIVE Kleisli(_, _, _)
Kleisli(m, fns, i) ==
  IF i > Len(fns) \/ m[1] \in {"nothing", "error"} THEN R(m)
  ELSE ThenE(fns[i][2], <<Val(m)>>, LAMBDA r : Kleisli(r, fns, i + 1))

(* the leftmost failing item decides *)
Collect(rs) ==
  LET bad == {i \in 1..Len(rs) : rs[i][1] = "error"}
  IN  IF bad # {} THEN rs[CHOOSE i \in bad : \A j \in bad : i <= j]
      ELSE Ok(Block([i \in 1..Len(rs) |-> Val(rs[i])]))
Traverse(fn, xs) ==
  LET rs == [i \in 1..Len(xs) |-> Call(fn, <<xs[i]>>)]
      boom == {i \in 1..Len(rs) : IsRaise(rs[i])}
  IN  IF boom # {} THEN rs[CHOOSE i \in boom : TRUE] ELSE Collect(rs)

(* exception classes *)
Parent(c) == CASE c \in {"KeyError", "IndexError"} -> "LookupError"
               [] c = "SubBoom" -> "Boom"
               [] c \in {"Exception", "BaseBoom"} -> "BaseException"
               [] c = "BaseException" -> ""
               [] OTHER -> "Exception"
RECURSIVE SubClass(_, _)
SubClass(c, d) == c = d \/ (c # "" /\ c # "BaseException" /\ SubClass(Parent(c), d))
Catch(cls, r) ==
  IF IsRaise(r) THEN (IF SubClass(r[2], cls) THEN Err(<<"exc", r[2]>>) ELSE r)
  ELSE IF r[1] \in {"ok", "error"} THEN r ELSE Ok(r)

ComposeEval(op, a) ==
  CASE op = "pipeline.result" -> Kleisli(Ok(a[1]), Tail(a), 1)
    [] op = "pipeline.option" -> Kleisli(Some(a[1]), Tail(a), 1)
    [] op = "traverse" -> R(Traverse(a[1][2], a[2][2]))          \* the calls are not prescribed
    [] op = "sequence" -> R(Collect(a[1][2]))
    [] op = "catch" -> [ret |-> Catch(a[1][2], Call(a[2][2], Tail(Tail(a)))), calls |-> << <<a[2][2], Tail(Tail(a))>> >>]
    [] op = "catch2" -> [ret |-> Catch(a[1][2], Catch(a[2][2], Call(a[3][2], Tail(Tail(Tail(a)))))), calls |-> << <<a[3][2], Tail(Tail(Tail(a)))>> >>]

FnS(S) == { Fn(f) : f \in S }
SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
ResFns == FnS({"ok_f", "ok_none", "ok_id", "ok_ok", "ok_wk", "err_g", "err_none", "err_wk", "boom", "boomE"})
OptFns == FnS({"some_f", "some_none", "some_id", "some_wk", "nothing", "boom", "boomE"})
Vals == {None, I(0), Nothing, Ok(I(1)), Err(I(1)), Weird(1)}
Items == {I(0), I(1), I(2)}
ResItems == {Ok(None), Ok(I(1)), Ok(Err(I(3))), Err(None), Err(I(1)), Err(Ok(I(2)))}
Classes == {Str(c) : c \in {"ValueError", "LookupError", "KeyError", "Boom", "SubBoom", "Exception", "BaseException", "EffectError", "BaseBoom"}}
CatchFns == FnS({"f", "none", "wk", "ok_wk", "err_wk", "ok_id", "err_g", "err_none", "ok_none", "ok_ok", "some_id", "nothing", "exc_val", "zero", "pF",
                 "boom", "boomV", "boomK", "boomL", "boomI", "boomE", "boomB", "boomSub", "boomT"})
Cases(n) ==
  UNION {
    { <<"pipeline.result", <<x>> \o fs>> : x \in Vals, fs \in SeqsUpTo(ResFns, n) },
    { <<"pipeline.option", <<x>> \o fs>> : x \in Vals, fs \in SeqsUpTo(OptFns, n) },
    { <<"traverse", <<f, Block(xs)>> >> : f \in FnS({"ok_f", "ok_id", "ok_none", "err_g", "err_none", "ok_or_err_pos", "ok_boom2", "boom", "ok_ok"}), xs \in SeqsUpTo(Items, n + 1) },
    { <<"traverse", <<f, Block(xs)>> >> : f \in FnS({"ok_id", "ok_none", "ok_f", "ok_wk", "err_wk"}), xs \in SeqsUpTo({None, Nothing, Weird(1), Err(I(1))}, 3) },
    { <<"sequence", <<Block(xs)>> >> : xs \in SeqsUpTo(ResItems, n) },
    { <<"catch", <<c, f, x>> >> : c \in Classes, f \in CatchFns, x \in {I(1), None} },
    { <<"catch", <<c, f, I(1), None>> >> : c \in {Str("Exception")}, f \in CatchFns },
    { <<"catch2", <<c, d, f, I(1)>> >> : c, d \in Classes, f \in CatchFns }
  }
=============================================================================
