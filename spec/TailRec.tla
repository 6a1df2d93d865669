------------------------------ MODULE TailRec ------------------------------
(***************************************************************************)
(* tailrec: a stack machine in which a TailCall replaces the top frame.    *)
(*                                                                         *)
(* P[f][l] is what function f does when called with first argument l:      *)
(*   <<"tail", l2, args, kw>>   return TailCall(l2, *args, **kw)            *)
(*   <<"ret", v>>               return v                                   *)
(*   <<"args">>                 return the arguments it was called with    *)
(*   <<"raise">>                raise Boom                                 *)
(*   <<"call", g, m, l2>>       v = g(m); return TailCall(l2, v)            *)
(*   <<"trycall", g, m, l2>>    the same, with None instead of an exception *)
(*   <<"callret", g, m>>        return g(m)                                *)
(* f and g are decorated.  A step runs from the entry of one body to the   *)
(* entry of the next one (in the async case bodies suspend on entry).      *)
(***************************************************************************)
EXTENDS Terms

Frame(f, a, k) == <<"enter", f, a, k>>
Wait(f, kind, l2) == <<"wait", f, kind, l2>>
Start(f, l) == [stack |-> <<Frame(f, <<l>>, <<>>)>>, log |-> <<>>, ret |-> <<"running">>]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Replace(s, fr) == Append(Front(s), fr)

RECURSIVE Return(_, _), Propagate(_, _)
Return(s, v) ==
  IF s.stack = <<>> THEN [s EXCEPT !.ret = v]
  ELSE LET w == Last(s.stack)
       IN  IF w[3] = "callret" THEN Return([s EXCEPT !.stack = Front(@)], v)
           ELSE [s EXCEPT !.stack = Replace(@, Frame(w[2], <<w[4], v>>, <<>>))]
Propagate(s, e) ==
  IF s.stack = <<>> THEN [s EXCEPT !.ret = e]
  ELSE LET w == Last(s.stack)
       IN  IF w[3] = "trycall" THEN [s EXCEPT !.stack = Replace(@, Frame(w[2], <<w[4], None>>, <<>>))]
           ELSE Propagate([s EXCEPT !.stack = Front(@)], e)

(* first argument (the label) as a term *)
ArgTerms(a) == <<I(a[1])>> \o SubSeq(a, 2, Len(a))
Step(P, s0) ==
  LET fr == Last(s0.stack)
      f == fr[2]
      s == [s0 EXCEPT !.log = Append(@, <<f, ArgTerms(fr[3]), fr[4]>>)]
      ins == P[f][fr[3][1]]
      k == ins[1]
      pop == [s EXCEPT !.stack = Front(@)]
  IN  CASE k = "tail"  -> [s EXCEPT !.stack = Replace(@, Frame(f, <<ins[2]>> \o ins[3], ins[4]))]
        [] k = "ret"   -> Return(pop, ins[2])
        [] k = "args"  -> Return(pop, Tup(ArgTerms(fr[3])))
        [] k = "raise" -> Propagate(pop, RaiseCb("Boom"))
        [] k \in {"call", "trycall"} -> [s EXCEPT !.stack = Append(Replace(@, Wait(f, k, ins[4])), Frame(ins[2], <<ins[3]>>, <<>>))]
        [] k = "callret" -> [s EXCEPT !.stack = Append(Replace(@, Wait(f, k, 0)), Frame(ins[2], <<ins[3]>>, <<>>))]
Running(s) == s.ret = <<"running">>
RECURSIVE Run(_, _)
Run(P, s) == IF Running(s) THEN Run(P, Step(P, s)) ELSE s
=============================================================================
