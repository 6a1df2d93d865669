------------------------------ MODULE Railway ------------------------------
(***************************************************************************)
(* Semantics of Option and Result (two-track) values: every operation is a *)
(* function of the case(s) and payload(s) alone.                           *)
(***************************************************************************)
EXTENDS Terms

--------------------------------------------------------------------------
(* Option *)
OptEval(op, a) ==
  CASE op = "opt.map"      -> IF IsSome(a[1]) THEN Then(a[2][2], <<Val(a[1])>>, LAMBDA r : Some(r)) ELSE R(Nothing)
    [] op = "opt.map2"     -> IF IsSome(a[1]) /\ IsSome(a[2])
                              THEN Then(a[3][2], <<Val(a[1]), Val(a[2])>>, LAMBDA r : Some(r)) ELSE R(Nothing)
    [] op = "opt.apply"    -> IF IsSome(a[1]) /\ IsSome(a[2])
                              THEN Then(Val(a[2])[2], <<Val(a[1])>>, LAMBDA r : Some(r)) ELSE R(Nothing)
    [] op = "opt.starmap"  -> IF IsSome(a[1]) THEN Then(a[2][2], Val(a[1])[2], LAMBDA r : Some(r)) ELSE R(Nothing)
    [] op = "opt.bind"     -> IF IsSome(a[1]) THEN Then(a[2][2], <<Val(a[1])>>, Same) ELSE R(Nothing)
    [] op = "opt.filter"   -> IF IsSome(a[1])
                              THEN Then(a[2][2], <<Val(a[1])>>, LAMBDA r : IF Truthy(r) THEN a[1] ELSE Nothing)
                              ELSE R(Nothing)
    [] op = "opt.or_else"  -> R(IF IsSome(a[1]) THEN a[1] ELSE a[2])
    [] op = "opt.or_else_with" -> IF IsSome(a[1]) THEN R(a[1]) ELSE Then(a[2][2], <<>>, Same)
    [] op = "opt.default_value" -> R(IF IsSome(a[1]) THEN Val(a[1]) ELSE a[2])
    [] op = "opt.default_arg"   -> R(IF IsSome(a[1]) THEN Val(a[1]) ELSE a[2])
    [] op = "opt.default_with"  -> IF IsSome(a[1]) THEN R(Val(a[1])) ELSE Then(a[2][2], <<>>, Same)
    [] op = "opt.to_list"  -> R(List(IF IsSome(a[1]) THEN <<Val(a[1])>> ELSE <<>>))
    [] op = "opt.to_seq"   -> R(SeqT(IF IsSome(a[1]) THEN <<Val(a[1])>> ELSE <<>>))
    [] op = "opt.to_optional" -> R(IF IsSome(a[1]) THEN Val(a[1]) ELSE None)
    [] op = "opt.to_result"   -> R(IF IsSome(a[1]) THEN Ok(Val(a[1])) ELSE Err(a[2]))
    [] op = "opt.to_result_with" -> IF IsSome(a[1]) THEN R(Ok(Val(a[1]))) ELSE Then(a[2][2], <<>>, LAMBDA r : Err(r))
    [] op = "opt.of_optional" -> R(IF a[1] = None THEN Nothing ELSE Some(a[1]))
    [] op = "opt.of_obj"      -> R(IF a[1] = None THEN Nothing ELSE Some(a[1]))
    [] op = "opt.of_result"   -> R(IF IsOk(a[1]) THEN Some(Val(a[1])) ELSE Nothing)
    [] op = "opt.is_some"  -> R(Bool(IsSome(a[1])))
    [] op = "opt.is_none"  -> R(Bool(~IsSome(a[1])))
    [] op = "opt.value"    -> R(IF IsSome(a[1]) THEN Val(a[1]) ELSE Raise("ValueError"))
    [] op = "opt.Some"     -> R(Some(a[1]))
    [] op = "opt.Nothing"  -> R(Nothing)
    [] op = "opt.eq"       -> R(Bool(PyEq(a[1], a[2])))
    [] op = "opt.ne"       -> R(Bool(~PyEq(a[1], a[2])))
    \* an option is a one-shot iterable of its value (or not at all)
    [] op = "opt.match"    -> R(IF IsSome(a[1]) THEN Tup(<<Str("some"), Val(a[1])>>) ELSE Tup(<<Str("none"), None>>))

--------------------------------------------------------------------------
(* Result; Success/Failure of Try are the same two cases. *)
ResEval(op, a) ==
  CASE op = "res.map"       -> IF IsOk(a[1]) THEN Then(a[2][2], <<Val(a[1])>>, LAMBDA r : Ok(r)) ELSE R(a[1])
    [] op = "res.map_error" -> IF IsOk(a[1]) THEN R(a[1]) ELSE Then(a[2][2], <<Val(a[1])>>, LAMBDA r : Err(r))
    [] op = "res.map2"      -> IF ~IsOk(a[1]) THEN R(a[1])
                               ELSE IF ~IsOk(a[2]) THEN R(a[2])
                               ELSE Then(a[3][2], <<Val(a[1]), Val(a[2])>>, LAMBDA r : Ok(r))
    [] op = "res.apply"     -> IF ~IsOk(a[2]) THEN R(a[2])
                               ELSE IF ~IsOk(a[1]) THEN R(a[1])
                               ELSE Then(Val(a[2])[2], <<Val(a[1])>>, LAMBDA r : Ok(r))
    [] op = "res.bind"      -> IF IsOk(a[1]) THEN Then(a[2][2], <<Val(a[1])>>, Same) ELSE R(a[1])
    [] op = "res.filter"    -> IF IsOk(a[1])
                               THEN Then(a[2][2], <<Val(a[1])>>, LAMBDA r : IF Truthy(r) THEN a[1] ELSE Err(a[3]))
                               ELSE R(a[1])
    [] op = "res.filter_with" ->
         IF IsOk(a[1])
         THEN ThenE(a[2][2], <<Val(a[1])>>,
                    LAMBDA r : IF Truthy(r) THEN R(a[1])
                               ELSE Then(a[3][2], <<Val(a[1])>>, LAMBDA q : Err(q)))
         ELSE R(a[1])
    [] op = "res.or_else"   -> R(IF IsOk(a[1]) THEN a[1] ELSE a[2])
    [] op = "res.or_else_with" -> IF IsOk(a[1]) THEN R(a[1]) ELSE Then(a[2][2], <<Val(a[1])>>, Same)
    [] op = "res.default_value" -> R(IF IsOk(a[1]) THEN Val(a[1]) ELSE a[2])
    [] op = "res.default_with"  -> IF IsOk(a[1]) THEN R(Val(a[1])) ELSE Then(a[2][2], <<Val(a[1])>>, Same)
    [] op = "res.swap"      -> R(IF IsOk(a[1]) THEN Err(Val(a[1])) ELSE Ok(Val(a[1])))
    [] op = "res.merge"     -> R(Val(a[1]))
    [] op = "res.to_option" -> R(IF IsOk(a[1]) THEN Some(Val(a[1])) ELSE Nothing)
    [] op = "res.of_option" -> R(IF IsSome(a[1]) THEN Ok(Val(a[1])) ELSE Err(a[2]))
    [] op = "res.of_option_with" -> IF IsSome(a[1]) THEN R(Ok(Val(a[1]))) ELSE Then(a[2][2], <<>>, LAMBDA r : Err(r))
    [] op = "res.is_ok"     -> R(Bool(IsOk(a[1])))
    [] op = "res.is_error"  -> R(Bool(~IsOk(a[1])))
    [] op = "res.Ok"        -> R(Ok(a[1]))
    [] op = "res.Error"     -> R(Err(a[1]))
    [] op = "res.eq"        -> R(Bool(PyEq(a[1], a[2])))
    [] op = "res.ne"        -> R(Bool(~PyEq(a[1], a[2])))
    [] op = "res.match"     -> R(Tup(<<Str(a[1][1]), Val(a[1])>>))

RailwayEval(op, a) == IF op \in {"opt.map","opt.map2","opt.apply","opt.starmap","opt.bind","opt.filter","opt.or_else",
       "opt.or_else_with","opt.default_value","opt.default_arg","opt.default_with","opt.to_list","opt.to_seq",
       "opt.to_optional","opt.to_result","opt.to_result_with","opt.of_optional","opt.of_obj","opt.of_result",
       "opt.is_some","opt.is_none","opt.value","opt.Some","opt.Nothing","opt.eq","opt.ne","opt.match"}
     THEN OptEval(op, a) ELSE ResEval(op, a)

--------------------------------------------------------------------------
(* Domains for exhaustive exploration. *)
Base == { None, Bool(FALSE), Bool(TRUE), I(0), I(1), Str(""), Str("a"), Tup(<<>>), List(<<>>), Weird(1), Fn("k") }
Nest == Base \cup { Some(None), Some(I(0)), Nothing, Ok(None), Err(None), Ok(I(0)), Err(Str("a")), Tup(<<I(0), None>>) }
Plain == { v \in Nest : v[1] \notin {"weird", "fn"} }   \* values that may be compared
Opts == { Some(v) : v \in Nest } \cup { Some(Some(Nothing)), Nothing }
Ress == { Ok(v) : v \in Nest } \cup { Err(v) : v \in Nest }
EqOpts == { Some(v) : v \in Plain } \cup { Nothing, Some(Some(Some(None))) }
EqRess == { Ok(v) : v \in Plain } \cup { Err(v) : v \in Plain }
SmallOpts == { Nothing, Some(None), Some(I(0)), Some(Weird(2)), Some(Nothing), Some(Err(None)) }
SmallRess == { Ok(None), Err(None), Ok(I(0)), Err(I(0)), Ok(Weird(2)), Err(Weird(2)), Ok(Nothing), Err(Err(None)) }
Booms == { Fn(x) : x \in {"boom", "boomV", "boomK", "boomT", "boomA", "boomE"} }
ValFns == { Fn(x) : x \in {"f", "none", "zero", "some_id", "nothing", "err_none", "wk"} } \cup Booms
ThunkFns == { Fn(x) : x \in {"f", "none", "zero", "estr", "nothing", "ok_none", "err_none", "wk"} } \cup Booms
OptFns == { Fn(x) : x \in {"some_f", "some_id", "some_none", "nothing", "some_wk"} } \cup Booms
OptThunks == { Fn(x) : x \in {"some_f", "some_none", "nothing", "some_wk"} } \cup Booms
ResFns == { Fn(x) : x \in {"ok_f", "ok_id", "ok_none", "err_g", "err_none", "ok_wk", "err_wk"} } \cup Booms
Preds == { Fn(x) : x \in {"pT", "pF", "p1", "pS", "two", "pL", "zero", "none", "estr", "f"} } \cup Booms
Bin == { Fn(x) : x \in {"f", "none", "pair", "wk", "boom", "boomA", "boomT"} }
TupOpts == { Nothing, Some(Tup(<<>>)), Some(Tup(<<None>>)), Some(Tup(<<I(0), Weird(1)>>)),
             Some(Tup(<<Tup(<<I(1), I(2)>>), Nothing, Str("")>>)) }

OptCases(regs) ==
  LET O == Opts \cup { regs[i] : i \in 1..Len(regs) } IN
     { <<"opt.map", <<o, f>> >> : o \in O, f \in ValFns }
  \cup { <<"opt.map2", <<o, p, f>> >> : o \in O, p \in SmallOpts, f \in Bin }
  \cup { <<"opt.map2", <<p, o, f>> >> : o \in O, p \in SmallOpts, f \in Bin }
  \cup { <<"opt.apply", <<o, p>> >> : o \in O, p \in { Some(f) : f \in ValFns } \cup {Nothing} }
  \cup { <<"opt.starmap", <<o, f>> >> : o \in TupOpts, f \in {Fn("f"), Fn("none"), Fn("wk"), Fn("boom"), Fn("boomT")} }
  \cup { <<"opt.bind", <<o, f>> >> : o \in O, f \in OptFns }
  \cup { <<"opt.filter", <<o, f>> >> : o \in O, f \in Preds }
  \cup { <<"opt.or_else", <<o, p>> >> : o \in O, p \in SmallOpts }
  \cup { <<"opt.or_else_with", <<o, f>> >> : o \in O, f \in OptThunks }
  \cup { <<op, <<o, v>> >> : op \in {"opt.default_value", "opt.default_arg", "opt.to_result"}, o \in O, v \in Nest }
  \cup { <<op, <<o, f>> >> : op \in {"opt.default_with", "opt.to_result_with"}, o \in O, f \in ThunkFns }
  \cup { <<op, <<o>> >> : op \in {"opt.to_list", "opt.to_seq", "opt.to_optional", "opt.is_some", "opt.is_none", "opt.value", "opt.match"}, o \in O }
  \cup { <<op, <<v>> >> : op \in {"opt.of_optional", "opt.of_obj", "opt.Some"}, v \in Nest }
  \cup { <<"opt.of_result", <<r>> >> : r \in Ress }
  \cup { <<"opt.Nothing", <<>> >> }
  \cup { <<op, <<o, p>> >> : op \in {"opt.eq", "opt.ne"}, o \in EqOpts, p \in EqOpts \cup Plain }

ResCases(regs) ==
  LET O == Ress IN
     { <<"res.map", <<o, f>> >> : o \in O, f \in ValFns }
  \cup { <<"res.map_error", <<o, f>> >> : o \in O, f \in ValFns }
  \cup { <<"res.map2", <<o, p, f>> >> : o \in O, p \in SmallRess, f \in Bin }
  \cup { <<"res.map2", <<p, o, f>> >> : o \in O, p \in SmallRess, f \in Bin }
  \cup { <<"res.apply", <<o, p>> >> : o \in O, p \in { Ok(f) : f \in ValFns } \cup { Err(v) : v \in Nest } }
  \cup { <<"res.bind", <<o, f>> >> : o \in O, f \in ResFns }
  \cup { <<"res.filter", <<o, f, v>> >> : o \in O, f \in Preds, v \in {None, I(0), Weird(2), Err(None)} }
  \cup { <<"res.filter_with", <<o, f, g>> >> : o \in O, f \in Preds, g \in {Fn("g"), Fn("none"), Fn("wk"), Fn("boom"), Fn("boomT")} }
  \cup { <<"res.or_else", <<o, p>> >> : o \in O, p \in Ress }
  \cup { <<"res.or_else_with", <<o, f>> >> : o \in O, f \in ResFns }
  \cup { <<"res.default_value", <<o, v>> >> : o \in O, v \in Nest }
  \cup { <<"res.default_with", <<o, f>> >> : o \in O, f \in ValFns }
  \cup { <<op, <<o>> >> : op \in {"res.swap", "res.merge", "res.to_option", "res.is_ok", "res.is_error", "res.match"}, o \in O }
  \cup { <<"res.of_option", <<o, v>> >> : o \in Opts, v \in Nest }
  \cup { <<"res.of_option_with", <<o, f>> >> : o \in Opts, f \in ThunkFns }
  \cup { <<op, <<v>> >> : op \in {"res.Ok", "res.Error"}, v \in Nest }
  \cup { <<op, <<o, p>> >> : op \in {"res.eq", "res.ne"}, o \in EqRess, p \in EqRess \cup Plain \cup EqOpts }

--------------------------------------------------------------------------
(* Laws, checked by TLC on the domains above (they validate the spec). *)
Ret(e) == e.ret
OptLaws ==
  /\ \A o \in Opts : Ret(OptEval("opt.map", <<o, Fn("id")>>)) = o
  /\ \A o \in Opts : Ret(OptEval("opt.bind", <<o, Fn("some_id")>>)) = o
  /\ \A v \in Nest, f \in OptFns : OptEval("opt.bind", <<Some(v), f>>).ret = Call(f[2], <<v>>)
  /\ \A o \in Opts : Ret(OptEval("opt.of_result", <<Ret(OptEval("opt.to_result", <<o, None>>))>>)) = o
  /\ \A o \in Opts : (Ret(OptEval("opt.is_some", <<o>>)) = Bool(TRUE)) = (Ret(OptEval("opt.is_none", <<o>>)) = Bool(FALSE))
  /\ \A o, p \in SmallOpts, q \in SmallOpts :
        Ret(OptEval("opt.or_else", <<o, Ret(OptEval("opt.or_else", <<p, q>>))>>))
      = Ret(OptEval("opt.or_else", <<Ret(OptEval("opt.or_else", <<o, p>>)), q>>))
  /\ \A c \in OptCases(<<>>) : Len(OptEval(c[1], c[2]).calls) <= 1
ResLaws ==
  /\ \A o \in Ress : Ret(ResEval("res.map", <<o, Fn("id")>>)) = o
  /\ \A o \in Ress : Ret(ResEval("res.map_error", <<o, Fn("id")>>)) = o
  /\ \A o \in Ress : Ret(ResEval("res.swap", <<Ret(ResEval("res.swap", <<o>>))>>)) = o
  /\ \A o \in Ress, f \in ValFns : Ret(ResEval("res.swap", <<o>>)) # o
  /\ \A o \in Ress, f \in {Fn("f"), Fn("none")} :
        Ret(ResEval("res.map_error", <<o, f>>))
      = Ret(ResEval("res.swap", <<Ret(ResEval("res.map", <<Ret(ResEval("res.swap", <<o>>)), f>>))>>))
  /\ \A v \in Nest, f \in ResFns : ResEval("res.bind", <<Ok(v), f>>).ret = Call(f[2], <<v>>)
  /\ \A c \in ResCases(<<>>) : Len(ResEval(c[1], c[2]).calls) <= 2
=============================================================================
