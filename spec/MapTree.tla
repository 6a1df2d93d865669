------------------------------ MODULE MapTree ------------------------------
(***************************************************************************)
(* The height-balanced tree behind Map, as an implementation-level state   *)
(* machine: a tree is <<>> or <<left, key, value, right, height>>.         *)
(* It refines the abstract dictionary (Refines), stays a search tree with  *)
(* correct heights, and its height is bounded by the peak size.            *)
(***************************************************************************)
EXTENDS MapSpec
CONSTANTS KeyN, MaxLen, Mixed     \* keys 1..KeyN; histories up to MaxLen; Mixed: adds also after removals

Leaf(k, v) == << <<>>, k, v, <<>>, 1>>
H(t) == IF t = <<>> THEN 0 ELSE t[5]
Max2(a, b) == IF a > b THEN a ELSE b
Mk(l, k, v, r) == <<l, k, v, r, Max2(H(l), H(r)) + 1>>
Tolerance == 2

Rebalance(t1, k, v, t2) ==
  IF H(t2) > H(t1) + Tolerance THEN
    IF H(t2[1]) > H(t1) + 1
    THEN LET m == t2[1] IN Mk(Mk(t1, k, v, m[1]), m[2], m[3], Mk(m[4], t2[2], t2[3], t2[4]))
    ELSE Mk(Mk(t1, k, v, t2[1]), t2[2], t2[3], t2[4])
  ELSE IF H(t1) > H(t2) + Tolerance THEN
    IF H(t1[4]) > H(t2) + 1
    THEN LET m == t1[4] IN Mk(Mk(t1[1], t1[2], t1[3], m[1]), m[2], m[3], Mk(m[4], k, v, t2))
    ELSE Mk(t1[1], t1[2], t1[3], Mk(t1[4], k, v, t2))
  ELSE Mk(t1, k, v, t2)

RECURSIVE TAdd(_, _, _)
TAdd(k, v, t) ==
  IF t = <<>> THEN Leaf(k, v)
  ELSE IF t[5] = 1 THEN (IF k < t[2] THEN << <<>>, k, v, t, 2>> ELSE IF k = t[2] THEN Leaf(k, v) ELSE <<t, k, v, <<>>, 2>>)
  ELSE IF k < t[2] THEN Rebalance(TAdd(k, v, t[1]), t[2], t[3], t[4])
  ELSE IF k = t[2] THEN <<t[1], k, v, t[4], t[5]>>
  ELSE Rebalance(t[1], t[2], t[3], TAdd(k, v, t[4]))

RECURSIVE SpliceMin(_)            \* <<key, value, rest>>
SpliceMin(t) ==
  IF t[1] = <<>> THEN <<t[2], t[3], t[4]>>
  ELSE LET s == SpliceMin(t[1]) IN <<s[1], s[2], Mk(s[3], t[2], t[3], t[4])>>

RECURSIVE TRemove(_, _)
TRemove(k, t) ==
  IF t = <<>> THEN <<>>
  ELSE IF k < t[2] THEN Rebalance(TRemove(k, t[1]), t[2], t[3], t[4])
  ELSE IF k = t[2] THEN
    IF t[1] = <<>> THEN t[4] ELSE IF t[4] = <<>> THEN t[1]
    ELSE LET s == SpliceMin(t[4]) IN Mk(t[1], s[1], s[2], s[3])
  ELSE Rebalance(t[1], t[2], t[3], TRemove(k, t[4]))

RECURSIVE Flatten(_)
Flatten(t) == IF t = <<>> THEN <<>> ELSE Flatten(t[1]) \o << <<I(t[2]), I(t[3])>> >> \o Flatten(t[4])
RECURSIVE Shape(_)
Shape(t) == IF t = <<>> THEN <<>> ELSE <<Shape(t[1]), t[2], Shape(t[4])>>
Size(t) == Len(Flatten(t))

(* fewest bindings of a tree of height h whose subtrees differ by at most the tolerance *)
RECURSIVE NMin(_)
NMin(h) == IF h <= 0 THEN 0 ELSE 1 + NMin(h - 1) + NMin(h - 1 - Tolerance)
HMax(n) == CHOOSE h \in 0..(n + 1) : NMin(h) <= n /\ NMin(h + 1) > n

VARIABLES tree, abs, hist, peak, removing
vars == <<tree, abs, hist, peak, removing>>
Init == tree = <<>> /\ abs = <<>> /\ hist = <<>> /\ peak = 0 /\ removing = FALSE

AddK(k) ==
  /\ Mixed \/ ~removing
  /\ tree' = TAdd(k, Len(hist), tree)
  /\ abs' = Put(abs, I(k), I(Len(hist)))
  /\ hist' = Append(hist, k)
  /\ peak' = Max2(peak, Len(abs'))
  /\ UNCHANGED removing
RemoveK(k) ==
  /\ Has(abs, I(k))
  /\ tree' = TRemove(k, tree)
  /\ abs' = Del(abs, I(k))
  /\ hist' = Append(hist, 0 - k)
  /\ removing' = TRUE
  /\ UNCHANGED peak
Next == Len(hist) < MaxLen /\ \E k \in 1..KeyN : AddK(k) \/ RemoveK(k)
Spec == Init /\ [][Next]_vars

(* the tree is all that matters; bindings' values and the history are left out *)
View == <<Shape(tree), IF Mixed THEN 0 ELSE peak, removing /\ ~Mixed>>

Refines == Flatten(tree) = abs
Sorted_ == Ascending(Flatten(tree))
RECURSIVE HeightsOk(_)
HeightsOk(t) == t = <<>> \/ (HeightsOk(t[1]) /\ HeightsOk(t[4]) /\ t[5] = Max2(H(t[1]), H(t[4])) + 1)
Heights == HeightsOk(tree)
HeightBound == Mixed \/ H(tree) <= HMax(peak)
RECURSIVE Bal(_)
Bal(t) == t = <<>> \/ (Bal(t[1]) /\ Bal(t[4]) /\ H(t[1]) <= H(t[4]) + Tolerance /\ H(t[4]) <= H(t[1]) + Tolerance)
BalancedWhileAdding == removing \/ Bal(tree)

Emit == PrintT("@" \o ToJson([hist |-> hist, abs |-> abs, height |-> H(tree)]))
=============================================================================
