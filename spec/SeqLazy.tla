------------------------------ MODULE SeqLazy ------------------------------
(***************************************************************************)
(* Demand-driven pipelines.  A pipeline is a list of stages over a source  *)
(* given by the list Src.  State: how many elements each open iterator has *)
(* been asked for.  Pull(i) yields the next element (or "stop") to         *)
(* iterator i; need tells, for the source and for each stage's callback,   *)
(* the largest number of elements / calls this demand justifies.           *)
(*                                                                         *)
(* A stage is <<name, arg>> (see StageOut).  A pull count p on a sequence  *)
(* X with p > Len(X) stands for having asked past its end.                 *)
(***************************************************************************)
EXTENDS Lists
CONSTANTS Src, MaxStages, MaxPulls, NIter, Repeatable

StageOut(st, X) ==
  CASE st[1] = "map"     -> [i \in 1..Len(X) |-> Call(st[2][2], <<X[i]>>)]
    [] st[1] = "mapi"    -> [i \in 1..Len(X) |-> Call(st[2][2], <<I(i - 1), X[i]>>)]
    [] st[1] = "append"  -> X \o Elems(st[2])
    [] OTHER -> Elems(IF st[2] = None THEN ListEval(st[1], <<List(X)>>, List).ret
                      ELSE IF st[1] = "scan" THEN ListEval(st[1], <<List(X), st[2], I(0)>>, List).ret
                      ELSE ListEval(st[1], <<List(X), st[2]>>, List).ret)

HasFn(st) == st[2][1] = "fn"

(* pulls on the input caused by p pulls on the output *)
PullsOn(st, X, p) ==
  LET out == StageOut(st, X) IN
  IF p = 0 THEN 0
  ELSE IF st[1] = "append" THEN IF p <= Len(X) THEN p ELSE Len(X) + 1
  ELSE IF p <= Len(out) THEN MinOf({m \in 0..Len(X) : Len(StageOut(st, Prefix(X, m))) >= p})
  ELSE IF st[1] = "take" /\ st[2][2] <= Len(X) THEN st[2][2]
  ELSE Len(X) + 1

(* values after each stage, first the source *)
RECURSIVE Layers(_, _)
Layers(stages, X) == IF stages = <<>> THEN <<X>> ELSE <<X>> \o Layers(Tail(stages), StageOut(Head(stages), X))
(* pulls on each layer when the last one gets p pulls *)
RECURSIVE Pulls(_, _, _)
Pulls(stages, L, p) ==
  IF stages = <<>> THEN <<p>>
  ELSE LET up == Pulls(SubSeq(stages, 1, Len(stages) - 1), SubSeq(L, 1, Len(L) - 1),
                       PullsOn(stages[Len(stages)], L[Len(L) - 1], p))
       IN Append(up, p)
(* callback calls of stage k: one per element of its input that was delivered *)
Calls(stages, L, P) == [k \in 1..Len(stages) |-> IF HasFn(stages[k]) THEN Min2(P[k], Len(L[k])) ELSE 0]

(* elements delivered by the second source of append and zip, and by the sequences collect's callback returns, *)
(* when the stage's output gets p pulls *)
OtherNeed(st, X, p) ==
  CASE st[1] = "append"  -> IF p <= Len(X) THEN 0 ELSE Min2(p - Len(X), Len(Elems(st[2])))
    [] st[1] = "zip"     -> Min2(p, Len(Elems(st[2])))
    [] st[1] = "collect" -> Min2(p, Len(StageOut(st, X)))
    [] OTHER -> 0

Stages ==
  { <<"map", Fn("inc")>>, <<"skip", I(1)>>, <<"skip", I(0)>>, <<"take", I(0)>>, <<"take", I(1)>>, <<"take", I(2)>>, <<"take", I(9)>>,
    <<"choose", Fn("choose_even")>>, <<"collect", Fn("dupL")>>, <<"collect", Fn("posL")>>, <<"pairwise", None>>, <<"mapi", Fn("snd")>>,
    <<"append", List(<<I(7), I(8)>>)>> }
  \cup IF Repeatable THEN {}
       ELSE { <<"filter", Fn("even")>>, <<"filter", Fn("pos")>>, <<"scan", Fn("add")>>, <<"zip", List(<<I(7), I(8), I(9)>>)>> }
(* pairwise and zip give tuples: no integer stages after them *)
Typed(p) == \A i \in 1..(Len(p) - 1) : p[i][1] \in {"pairwise", "zip"} =>
              \A j \in (i + 1)..Len(p) : p[j][1] \in {"skip", "take", "pairwise", "mapi"} \/ p[j] = <<"collect", Fn("dupL")>>
Pipelines == { p \in SeqsUpTo(Stages, MaxStages) : Typed(p) }

VARIABLES pipe, asked, sched, outs
vars == <<pipe, asked, sched, outs>>
Init == /\ pipe \in Pipelines
        /\ asked = [i \in 1..NIter |-> 0]
        /\ sched = <<>> /\ outs = <<>>

Pull(i) ==
  LET L == Layers(pipe, Src)
      out == L[Len(L)]
      k == asked[i] + 1
  IN  /\ asked[i] <= Len(out)                 \* at most one pull past the end
      /\ asked' = [asked EXCEPT ![i] = k]
      /\ sched' = Append(sched, i)
      /\ outs' = Append(outs, IF k <= Len(out) THEN out[k] ELSE Str("stop"))
      /\ UNCHANGED pipe
Next == Len(sched) < MaxPulls /\ \E i \in 1..NIter : (i = 1 \/ \E j \in 1..Len(sched) : sched[j] = i - 1) /\ Pull(i)
Spec == Init /\ [][Next]_vars

(* bounds for the current demand, summed over the iterators *)
RECURSIVE SumSeqs(_, _)
SumSeqs(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumSeqs(f, i - 1)
Bound(a) ==
  LET L == Layers(pipe, Src)
      P == [i \in 1..NIter |-> Pulls(pipe, L, a[i])]
      C == [i \in 1..NIter |-> Calls(pipe, L, P[i])]
  IN [src |-> SumSeqs([i \in 1..NIter |-> Min2(P[i][1], Len(Src))], NIter),
      calls |-> [k \in 1..Len(pipe) |-> SumSeqs([i \in 1..NIter |-> C[i][k]], NIter)],
      other |-> [k \in 1..Len(pipe) |-> SumSeqs([i \in 1..NIter |-> OtherNeed(pipe[k], L[k], P[i][k + 1])], NIter)]]

(* demand never exceeds what an eager evaluation would consume, and grows with the pulls *)
Sane == LET b == Bound(asked) IN b.src <= NIter * Len(Src)
(* a take never justifies more than its count *)
TakeBound == \A k \in 1..Len(pipe) : pipe[k][1] = "take" =>
  \A i \in 1..NIter : Pulls(pipe, Layers(pipe, Src), asked[i])[k] <= pipe[k][2][2]
(* append does not touch its second source before the first is exhausted *)
AppendOrder == \A k \in 1..Len(pipe) : pipe[k][1] = "append" =>
  LET L == Layers(pipe, Src)
  IN  \A i \in 1..NIter : LET P == Pulls(pipe, L, asked[i]) IN OtherNeed(pipe[k], L[k], P[k + 1]) > 0 => P[k] > Len(L[k])
Final == Len(sched) = MaxPulls \/ \A i \in 1..NIter : asked[i] > Len(Layers(pipe, Src)[Len(pipe) + 1])
AskedAt(k) == [i \in 1..NIter |-> Cardinality({j \in 1..k : sched[j] = i})]
Emit == ~Final \/ PrintT("@" \o ToJson([src |-> Src, pipe |-> pipe, sched |-> sched, outs |-> outs,
           need |-> [k \in 1..Len(sched) |-> Bound(AskedAt(k))]]))
=============================================================================
