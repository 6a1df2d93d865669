------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* Computation expressions: the bodies decorated with effect.option,       *)
(* effect.result, effect.try_, effect.seq and their async counterparts.    *)
(*                                                                         *)
(* A body is a program: a sequence of tokens.  The machine executes one    *)
(* token per step.                                                         *)
(*   <<"yield", v>>    x = yield v                                         *)
(*   <<"bind", m>>     x = yield from m   (async: x = await m)             *)
(*   <<"susp">>        async only: give up control                         *)
(*   <<"raise">>       raise an exception                                  *)
(*   <<"return", v>>   return v                                            *)
(*   <<"rep", n, v>>   n times: yield v                                    *)
(*   <<"arg">>         x = yield (the argument of the call)                *)
(*   <<"call", k>>     bind the result of calling another decorated body   *)
(*   <<"rec">>         bind a recursive call of this body (once)           *)
(*   <<"tryF">> <<"tryE">> ... <<"end">>  try/finally and try/except blocks*)
(* Every token executed, every value received, every finally and except    *)
(* block entered is logged.                                                *)
(***************************************************************************)
EXTENDS Terms

AsyncKinds == {"aoption", "aresult", "atry"}
Base(kind) == CASE kind = "aoption" -> "option" [] kind = "aresult" -> "result" [] kind = "atry" -> "try" [] OTHER -> kind
IsOpt(kind) == Base(kind) = "option"
Fails(m) == m[1] \in {"nothing", "error"}
Lift(kind, v) == IF IsOpt(kind) THEN Some(v) ELSE Ok(v)
Zero(kind) == IF IsOpt(kind) THEN Nothing ELSE Ok(None)

Start == [mode |-> "run", payload |-> None, stack |-> <<>>, log |-> <<>>, ys |-> <<>>]
Argument == I(41)

At(st, n) == [st EXCEPT !.log = Append(@, <<"at", n>>)]
Got(st, n, v) == [st EXCEPT !.log = Append(@, <<"got", n, v>>)]
Yields(st, s) == [st EXCEPT !.ys = @ \o s]
Stop(st, mode, p) == [st EXCEPT !.mode = mode, !.payload = p]

Final(kind, st) ==
  CASE st.mode = "exc" -> RaiseCb("Boom")
    [] st.mode = "cancel" -> <<"cancelled">>
    [] st.mode = "eff" -> st.payload
    [] Base(kind) = "seq" -> List(IF st.mode = "ret" /\ st.payload # None THEN Append(st.ys, st.payload) ELSE st.ys)
    [] st.mode = "ret" /\ st.payload # None -> Lift(kind, st.payload)
    [] st.ys = <<>> -> Zero(kind)
    [] OTHER -> Lift(kind, st.ys[Len(st.ys)])

(* x = yield from m *)
Bind(kind, st, n, m) ==
  CASE m[1] = "raise" -> Stop(st, "exc", None)
    [] m[1] \in {"list", "seq"} -> Got(Yields(st, m[2]), n, None)      \* iterating a plain iterable (effect.seq)
    [] Fails(m) -> Stop(st, "eff", m)
    [] kind \in AsyncKinds -> Got(st, n, m[2])              \* an await is no yield
    [] OTHER -> Got(Yields(st, <<m[2]>>), n, m[2])

CloseBlock(st, n) ==
  LET b == st.stack[Len(st.stack)]
      s1 == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
  IN  IF ~b.live THEN s1
      ELSE IF b.kind = "tryF" THEN [s1 EXCEPT !.log = Append(@, <<"fin", n>>)]
      ELSE IF s1.mode = "exc" THEN [Stop(s1, "run", None) EXCEPT !.log = Append(@, <<"exc", n>>)]
      ELSE s1

(* fixed bodies to call: failing, raising, returning, yielding *)
Inner(kind, k) ==
  LET fail == IF IsOpt(kind) THEN Nothing ELSE Err(IF Base(kind) = "try" THEN <<"exc", "KeyError">> ELSE Str("inner"))
      good == IF IsOpt(kind) THEN Some(I(5)) ELSE Ok(I(5))
  IN
  CASE k = 1 -> << <<"bind", good>>, <<"return", I(3)>> >>
    [] k = 2 -> IF Base(kind) = "seq" THEN << <<"return", None>> >> ELSE << <<"bind", good>>, <<"bind", fail>>, <<"return", I(3)>> >>
    [] k = 3 -> << <<"bind", good>>, <<"raise">> >>
    [] k = 4 -> IF kind \in AsyncKinds THEN << <<"susp">>, <<"bind", good>>, <<"return", None>> >> ELSE << <<"yield", I(4)>> >>

RECURSIVE Step(_, _, _, _, _, _), Run(_, _, _, _), RunFrom(_, _, _, _, _, _)

(* base: log positions are base + index;  depth: how many recursive calls remain *)
Step(kind, prog, i, base, depth, st) ==
  LET tok == prog[i]
      n == base + i
  IN
  CASE tok[1] \in {"tryF", "tryE"} -> [st EXCEPT !.stack = Append(@, [kind |-> tok[1], live |-> st.mode = "run"])]
    [] tok[1] = "end" -> CloseBlock(st, n)
    [] st.mode # "run" -> st
    [] tok[1] = "yield" -> Got(Yields(At(st, n), <<tok[2]>>), n, tok[2])
    [] tok[1] = "arg" -> Got(Yields(At(st, n), <<Argument>>), n, Argument)
    [] tok[1] = "susp" -> At(st, n)
    [] tok[1] = "bind" -> Bind(kind, At(st, n), n, tok[2])
    [] tok[1] = "raise" -> Stop(At(st, n), "exc", None)
    [] tok[1] = "return" -> Stop(At(st, n), "ret", tok[2])
    [] tok[1] = "rep" -> Yields(At(st, n), [j \in 1..tok[2] |-> tok[3]])
    [] tok[1] = "call" ->
         LET r == Run(kind, Inner(kind, tok[2]), 100 * tok[2], 0)
             s1 == At(st, n)
         IN  Bind(kind, [s1 EXCEPT !.log = @ \o r.log], n, r.ret)
    [] tok[1] = "rec" ->
         IF depth = 0 THEN At(st, n)
         ELSE LET r == Run(kind, prog, 1000 * depth, depth - 1)
                  s1 == At(st, n)
              IN  Bind(kind, [s1 EXCEPT !.log = @ \o r.log], n, r.ret)

RECURSIVE CloseAll(_, _)
CloseAll(st, n) == IF st.stack = <<>> THEN st ELSE CloseAll(CloseBlock(st, n), n + 1)

RunFrom(kind, prog, i, base, depth, st) ==
  IF i > Len(prog) THEN CloseAll(st, base + Len(prog) + 1)
  ELSE RunFrom(kind, prog, i + 1, base, depth, Step(kind, prog, i, base, depth, st))
Run(kind, prog, base, depth) ==
  LET st == RunFrom(kind, prog, 1, base, depth, Start) IN [ret |-> Final(kind, st), log |-> st.log]
=============================================================================
