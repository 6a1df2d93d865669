------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Values exchanged between the specification and the Python code, and the *)
(* table of named callbacks.                                               *)
(*                                                                         *)
(* Every Python value is a tagged tuple whose first component is the tag.  *)
(* Tags differ whenever the payload types differ, so any two terms can be  *)
(* compared.  harness/terms.py contains the mirror image of this module.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

None      == <<"none">>
I(n)    == <<"int", n>>
Str(s)    == <<"str", s>>
Bool(b)   == <<"bool", b>>
Tup(s)    == <<"tup", s>>
List(s)   == <<"list", s>>
Some(t)   == <<"some", t>>
Nothing   == <<"nothing">>
Ok(t)     == <<"ok", t>>
Err(t)    == <<"error", t>>
Block(s)  == <<"block", s>>
SeqT(s)   == <<"seq", s>>
Arr(s)    == <<"arr", s>>
Tok(k, i) == <<"tok", k, i>>       \* equal/ordered by k, identity i
Weird(i)  == <<"weird", i>>        \* value that must never be inspected
Amt(k, n) == <<"amt", k, n>>       \* summand of a type of kind k that is no int
IsAmt(t)  == t[1] = "amt"
App(f, args) == <<"app", f, args>> \* symbolic result of calling f
Fn(n)     == <<"fn", n>>
Raise(n)  == <<"raise", n>>        \* exception raised by the library
RaiseCb(n) == <<"raise", n, "cb">> \* the very exception raised by a callback

IsSome(t) == t[1] = "some"
IsOk(t)   == t[1] = "ok"
IsRaise(t) == t[1] = "raise"
Val(t)    == t[2]                  \* payload of some/ok/error/int/...

(* Python truthiness *)
Truthy(t) ==
  CASE t[1] = "none"  -> FALSE
    [] t[1] = "bool"  -> t[2]
    [] t[1] = "int"   -> t[2] # 0
    [] t[1] = "str"   -> t[2] # ""
    [] t[1] \in {"tup", "list", "block", "arr"} -> t[2] # <<>>
    [] OTHER -> TRUE

(* Python equality on the terms we use: ints and bools are one number type. *)
Num(t) == IF t[1] = "bool" THEN (IF t[2] THEN 1 ELSE 0) ELSE t[2]
IsNum(t) == t[1] \in {"int", "bool"}

RECURSIVE PyEq(_, _)
PyEq(a, b) ==
  CASE IsNum(a) /\ IsNum(b) -> Num(a) = Num(b)
    [] IsNum(a) # IsNum(b)  -> FALSE
    [] a[1] # b[1]          -> FALSE
    [] a[1] \in {"some", "ok", "error"} -> PyEq(a[2], b[2])
    [] a[1] \in {"tup", "list", "block", "arr"} ->
         /\ Len(a[2]) = Len(b[2])
         /\ \A i \in 1..Len(a[2]) : PyEq(a[2][i], b[2][i])
    [] a[1] = "tok" -> a[2] = b[2]
    [] OTHER -> a = b

(* Python "<" on ints, strings of the alphabet below, tokens, tuples.      *)
StrRank(s) == CHOOSE i \in 1..10 : <<"", "a", "ab", "abc", "b", "ba", "bb", "c", "d", "e">>[i] = s
RECURSIVE PyLt(_, _)
PyLt(a, b) ==
  CASE IsNum(a) /\ IsNum(b) -> Num(a) < Num(b)
    [] a[1] = "str" -> StrRank(a[2]) < StrRank(b[2])
    [] a[1] = "tok" -> a[2] < b[2]
    [] a[1] = "tup" ->
         \/ \E i \in 1..Len(a[2]) :
              /\ i <= Len(b[2])
              /\ \A j \in 1..(i-1) : PyEq(a[2][j], b[2][j])
              /\ PyLt(a[2][i], b[2][i])
         \/ /\ Len(a[2]) < Len(b[2])
            /\ \A j \in 1..Len(a[2]) : PyEq(a[2][j], b[2][j])

(***************************************************************************)
(* Named callbacks.                                                        *)
(***************************************************************************)
Symbolic == {"f", "g", "h", "k"}

Call(fn, args) ==
  CASE fn \in Symbolic -> App(fn, args)
    [] fn = "id"      -> args[1]
    [] fn = "snd"     -> args[2]
    [] fn = "none"    -> None
    [] fn = "zero"    -> I(0)
    [] fn = "estr"    -> Str("")
    [] fn = "pT"      -> Bool(TRUE)
    [] fn = "pF"      -> Bool(FALSE)
    [] fn = "p1"      -> I(1)
    [] fn = "pS"      -> Str("a")
    [] fn = "two"     -> I(2)
    [] fn = "pL"      -> List(<<Bool(FALSE)>>)
    [] fn = "amt"     -> Amt("o", 2)
    [] fn = "boom"    -> RaiseCb("Boom")
    [] fn = "boomV"   -> RaiseCb("ValueError")
    [] fn = "boomK"   -> RaiseCb("KeyError")
    [] fn = "boomI"   -> RaiseCb("IndexError")
    [] fn = "boomT"   -> RaiseCb("TypeError")
    [] fn = "boomA"   -> RaiseCb("AttributeError")
    [] fn = "boomE"   -> RaiseCb("EffectError")
    [] fn = "some_f"  -> Some(App("f", args))
    [] fn = "some_id" -> Some(args[1])
    [] fn = "some_none" -> Some(None)
    [] fn = "nothing" -> Nothing
    [] fn = "ok_f"    -> Ok(App("f", args))
    [] fn = "ok_id"   -> Ok(args[1])
    [] fn = "ok_none" -> Ok(None)
    [] fn = "err_g"   -> Err(App("g", args))
    [] fn = "err_none" -> Err(None)
    \* integer functions
    [] fn = "pos"     -> Bool(args[1][2] > 0)
    [] fn = "even"    -> Bool(args[1][2] % 2 = 0)
    [] fn = "isnt1"   -> Bool(args[1] # I(1))
    [] fn = "neg"     -> I(0 - args[1][2])
    [] fn = "inc"     -> I(args[1][2] + 1)
    [] fn = "mod2"    -> I(args[1][2] % 2)
    [] fn = "add"     -> I(args[1][2] + args[2][2])
    [] fn = "sub"     -> I(args[1][2] - args[2][2])
    [] fn = "mul10add" -> I(args[1][2] * 10 + args[2][2])
    [] fn = "pair"    -> Tup(args)
    [] fn = "choose_pos" -> IF args[1][2] > 0 THEN Some(I(args[1][2] * 10)) ELSE Nothing
    [] fn = "choose_even" -> IF args[1][2] % 2 = 0 THEN Some(args[1]) ELSE Nothing
    [] fn = "kv_some" -> Some(Tup(args))
    [] fn = "kv_evenv" -> Bool(args[2][1] = "int" /\ args[2][2] % 2 = 0)
    [] fn = "kv_pick_even" -> IF args[2][1] = "int" /\ args[2][2] % 2 = 0 THEN Some(Tup(args)) ELSE Nothing
    \* of a binding with an integer key
    [] fn = "k_lt10"  -> Bool(args[1][2] < 10)
    [] fn = "k_ge10"  -> Bool(args[1][2] >= 10)
    [] fn = "k_lt50"  -> Bool(args[1][2] < 50)
    [] fn = "k_ge50"  -> Bool(args[1][2] >= 50)
    [] fn = "k_mid"   -> Bool(args[1][2] >= 10 /\ args[1][2] < 50)
    [] fn = "k_pick_ge10" -> IF args[1][2] >= 10 THEN Some(args[2]) ELSE Nothing
    [] fn = "k_pick_ge50" -> IF args[1][2] >= 50 THEN Some(args[1]) ELSE Nothing
    [] fn = "kv_isnone" -> Bool(args[2] = None)
    [] fn = "incopt"  -> IF IsSome(args[1]) /\ Val(args[1])[1] = "int" THEN Some(I(Val(args[1])[2] + 1)) ELSE Some(I(0))
    [] fn = "toggle"  -> IF IsSome(args[1]) THEN Nothing ELSE Some(I(1))
    [] fn = "key"     -> I(args[1][2])                       \* of a token
    [] fn = "big"     -> Bool(args[1][2] >= 2)
    [] fn = "dupB"    -> Block(<<args[1], args[1]>>)
    [] fn = "emptyB"  -> Block(<<>>)
    [] fn = "posB"    -> Block(IF args[1][2] > 0 THEN <<args[1]>> ELSE <<>>)
    [] fn = "dupL"    -> List(<<args[1], args[1]>>)
    [] fn = "emptyL"  -> List(<<>>)
    [] fn = "posL"    -> List(IF args[1][2] > 0 THEN <<args[1]>> ELSE <<>>)
    [] fn = "dupA"    -> Arr(<<args[1], args[1]>>)
    [] fn = "emptyA"  -> Arr(<<>>)
    [] fn = "posA"    -> Arr(IF args[1][2] > 0 THEN <<args[1]>> ELSE <<>>)
    [] fn = "unf"     -> IF args[1][2] < 3 THEN Some(Tup(<<I(args[1][2] * 10), I(args[1][2] + 1)>>)) ELSE Nothing
    [] fn = "unf_boom" -> IF args[1][2] < 2 THEN Some(Tup(<<None, I(args[1][2] + 1)>>)) ELSE RaiseCb("Boom")
    [] fn = "thunkL"  -> List(<<I(1), I(2)>>)
    [] fn = "emptyT"  -> List(<<>>)
    [] fn = "pick2"   -> IF args[1] = I(2) THEN Some(App("f", args)) ELSE Nothing
    [] fn = "is2"     -> Bool(args[1] = I(2))
    [] fn = "boom_key2" -> IF args[1] = I(2) THEN RaiseCb("KeyError") ELSE I(0)
    \* dispatch on the argument: used to fail at one particular element
    [] fn = "ok_or_err_pos" -> IF args[1][2] > 0 THEN Ok(App("f", args)) ELSE Err(App("g", args))
    [] fn = "some_or_none_pos" -> IF args[1][2] > 0 THEN Some(App("f", args)) ELSE Nothing
    [] fn = "ok_boom2" -> IF args[1] = I(2) THEN RaiseCb("Boom") ELSE Ok(App("f", args))
    [] fn = "boomL"   -> RaiseCb("LookupError")
    [] fn = "boomB"   -> RaiseCb("BaseBoom")
    [] fn = "boomSub" -> RaiseCb("SubBoom")
    [] fn = "exc_val" -> <<"exc", "KeyError">>
    \* callbacks whose result is a value the library has no business looking into
    [] fn = "wk"      -> Weird(1)
    [] fn = "some_wk" -> Some(Weird(1))
    [] fn = "ok_wk"   -> Ok(Weird(1))
    [] fn = "err_wk"  -> Err(Weird(1))
    [] fn = "ok_ok"   -> Ok(Ok(args[1]))
    [] fn = "boom_at2" -> IF args[1] = I(2) THEN RaiseCb("Boom") ELSE App("f", args)

(* Result of evaluating an operation: value (or raise) and the ordered log *)
(* of callback calls.                                                      *)
R(v) == [ret |-> v, calls |-> <<>>]
Then(fn, args, K(_)) ==
  LET r == Call(fn, args)
  IN  [ret |-> IF IsRaise(r) THEN r ELSE K(r), calls |-> << <<fn, args>> >>]
Same(r) == r
PrependCalls(calls, e) == [ret |-> e.ret, calls |-> calls \o e.calls]
(* as Then, but the continuation itself evaluates to [ret, calls] *)
ThenE(fn, args, K(_)) ==
  LET r == Call(fn, args)
  IN  IF IsRaise(r) THEN [ret |-> r, calls |-> << <<fn, args>> >>]
      ELSE PrependCalls(<< <<fn, args>> >>, K(r))
=============================================================================
