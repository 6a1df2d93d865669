------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* Parser combinators (expression/extra/parser.py).                        *)
(*                                                                         *)
(* A parser is described by a syntax tree, the input is a sequence of      *)
(* one-character strings and a position is the number of characters        *)
(* consumed so far.  Parse gives                                           *)
(*   <<"ok", value, position>> | <<"fail">> | <<"raise", exception>>        *)
(*                                                                         *)
(* Numbers keep their digits (no machine arithmetic is involved):          *)
(*   <<"dec", "" or "-", digits>>       an integer, no leading zeros       *)
(*   <<"fltlit", literal characters>>   a float written like that          *)
(***************************************************************************)
EXTENDS Terms

POk(v, i) == <<"ok", v, i>>
Fail == <<"fail">>
IsPOk(r) == r[1] = "ok"

DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digits == {DigitSeq[i] : i \in 1..10}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Blank == {" ", "\f", "\t", "\n", "\r"}   \* the other white space characters are left out

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))

Split(x) == [k \in 1..Len(x) |-> SubSeq(x, k, k)]   \* of a string

At(s, i) == s[i + 1]
CharIn(s, i, S) == IF i < Len(s) /\ At(s, i) \in S THEN POk(Str(At(s, i)), i + 1) ELSE Fail
(* the end of the longest run of characters of S from i on *)
EndOf(s, i, S) ==
  LET out == {k \in i..(Len(s) - 1) : At(s, k) \notin S}
  IN  IF out = {} THEN Len(s) ELSE CHOOSE k \in out : \A j \in out : k <= j
Chars(s, i, j) == SubSeq(s, i + 1, j)
StrSeq(s) == [k \in 1..Len(s) |-> Str(s[k])]

(* digits without leading zeros *)
Strip(d) == LET nz == {k \in 1..Len(d) : d[k] # "0"} IN IF nz = {} THEN <<"0">> ELSE SubSeq(d, CHOOSE k \in nz : \A j \in nz : k <= j, Len(d))
DecInt(neg, d) == <<"dec", IF neg /\ Strip(d) # <<"0">> THEN "-" ELSE "", Strip(d)>>

(* names of binders: the parser to go on with, given the value *)
BindTo(fn, v) ==
  CASE fn = "b_same" -> IF v[1] = "str" THEN <<"pstring", Split(v[2])>> ELSE <<"preturn", v>>
    [] fn = "b_pair" -> <<"preturn", Tup(<<v, v>>)>>
    [] fn = "b_fail" -> <<"fail">>
    [] fn = "b_a"    -> <<"map", "f", <<"pchar", "a">> >>
    [] fn = "b_many" -> <<"many", <<"any_of", <<"a", "b">> >> >>

(* a recursive grammar: arithmetic-like nesting, lists and s-expressions *)
Rule(name) ==
  CASE name = "paren" -> <<"choice", << <<"between", <<"pchar", "(">>, <<"pchar", ")">>, <<"ref", "paren">> >>, <<"pint">> >> >>
    [] name = "list"  -> <<"choice", << <<"pint">>, <<"between", <<"pchar", "[">>, <<"pchar", "]">>,
                              <<"sep_by", <<"ref", "list">>, <<"pchar", ",">> >> >> >> >>
    [] name = "term"  -> <<"or_else", <<"lift2", "f", <<"then_ignore", <<"ref", "atom">>, <<"pchar", "+">> >>, <<"ref", "term">> >>, <<"ref", "atom">> >>
    [] name = "atom"  -> <<"or_else", <<"ref", "paren2">>, <<"map", "g", <<"many1", <<"any_of", <<"a", "b">> >> >> >> >>
    [] name = "paren2" -> <<"ignore_then", <<"pchar", "(">>, <<"then_ignore", <<"ref", "term">>, <<"pchar", ")">> >> >>

CharsOf(p) == IF p[1] = "pchar" THEN <<p[2]>> ELSE p[2]   \* of a literal parser
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

RECURSIVE Parse(_, _, _), RepSeg(_, _, _, _), All(_, _, _, _, _), First(_, _, _, _)
(* greedy repetition: ends at the end of the last complete item *)
RepSeg(p, s, i, n) ==   \* at most n items from i on: the items, where they end, and why they end there ("more": n items)
  IF n = 1 THEN LET r == Parse(p, s, i) IN IF IsPOk(r) THEN [xs |-> <<r[2]>>, at |-> r[3], end |-> <<"more">>] ELSE [xs |-> <<>>, at |-> i, end |-> r]
  ELSE LET a == RepSeg(p, s, i, n \div 2) IN
       IF a.end # <<"more">> THEN a
       ELSE LET b == RepSeg(p, s, a.at, n - n \div 2) IN [b EXCEPT !.xs = a.xs \o @]
Rep(p, s, i, acc) ==
  LET r == RepSeg(p, s, i, Len(s) - i + 2)
  IN  IF r.end = Fail THEN POk(acc \o r.xs, r.at) ELSE r.end
(* one after the other, from item k on *)
All(ps, k, s, i, acc) ==
  IF k > Len(ps) THEN POk(acc, i)
  ELSE LET r == Parse(ps[k], s, i) IN IF IsPOk(r) THEN All(ps, k + 1, s, r[3], Append(acc, r[2])) ELSE r
(* the first that does not fail, from item k on *)
First(ps, k, s, i) ==
  IF k > Len(ps) THEN Fail
  ELSE LET r == Parse(ps[k], s, i) IN IF r = Fail THEN First(ps, k + 1, s, i) ELSE r

Mapped(r, fn, args) ==
  IF ~IsPOk(r) THEN r
  ELSE LET v == Call(fn, args) IN IF IsRaise(v) THEN v ELSE POk(v, r[3])
OnOk(r, K(_)) == IF IsPOk(r) THEN K(r) ELSE r

Parse(p, s, i) ==
  LET k == p[1] IN
  CASE k = "pchar"  -> CharIn(s, i, {p[2]})
    [] k = "any_of" -> CharIn(s, i, {p[2][j] : j \in 1..Len(p[2])})
    [] k = "digit"  -> CharIn(s, i, Digits)
    [] k = "letter" -> CharIn(s, i, Lower \cup Upper)
    [] k = "lower"  -> CharIn(s, i, Lower)
    [] k = "digits" -> LET j == EndOf(s, i, Digits) IN IF j = i THEN Fail ELSE POk(Block(StrSeq(Chars(s, i, j))), j)
    [] k = "blank"  -> LET j == EndOf(s, i, Blank) IN IF j = i THEN Fail ELSE POk(Block(StrSeq(Chars(s, i, j))), j)
    [] k = "pstring" -> LET j == i + Len(p[2]) IN IF j <= Len(s) /\ Chars(s, i, j) = p[2] THEN POk(Str(Cat(p[2])), j) ELSE Fail
    [] k = "preturn" -> POk(p[2], i)
    [] k = "fail"   -> Fail
    [] k = "and_then" -> LET r == All(<<p[2], p[3]>>, 1, s, i, <<>>) IN IF IsPOk(r) THEN POk(Tup(r[2]), r[3]) ELSE r
    [] k = "then_ignore" -> LET r == All(<<p[2], p[3]>>, 1, s, i, <<>>) IN IF IsPOk(r) THEN POk(r[2][1], r[3]) ELSE r
    [] k = "ignore_then" -> LET r == All(<<p[2], p[3]>>, 1, s, i, <<>>) IN IF IsPOk(r) THEN POk(r[2][2], r[3]) ELSE r
    [] k = "between" -> LET r == All(<<p[2], p[4], p[3]>>, 1, s, i, <<>>) IN IF IsPOk(r) THEN POk(r[2][2], r[3]) ELSE r
    [] k = "sequence" -> LET r == All(p[2], 1, s, i, <<>>) IN IF IsPOk(r) THEN POk(Block(r[2]), r[3]) ELSE r
    [] k = "or_else" -> First(<<p[2], p[3]>>, 1, s, i)
    [] k = "choice"  -> First(p[2], 1, s, i)
    [] k = "map"     -> LET r == Parse(p[3], s, i) IN IF IsPOk(r) THEN Mapped(r, p[2], <<r[2]>>) ELSE r
    [] k = "starmap" -> LET r == Parse(p[3], s, i) IN IF IsPOk(r) THEN Mapped(r, p[2], r[2][2]) ELSE r
    [] k = "reent"   -> Parse(p[2], s, i)        \* while it maps its value, the parser is run on another input
    [] k = "ignore"  -> LET r == Parse(p[2], s, i) IN IF IsPOk(r) THEN POk(None, r[3]) ELSE r
    [] k = "opt"     -> LET r == Parse(p[2], s, i) IN IF IsPOk(r) THEN POk(Some(r[2]), r[3]) ELSE IF r = Fail THEN POk(Nothing, i) ELSE r
    [] k \in {"lift2", "apply"} ->
         LET r == All(<<p[3], p[4]>>, 1, s, i, <<>>) IN IF IsPOk(r) THEN Mapped(r, p[2], r[2]) ELSE r
    [] k = "starts_with" -> LET r == All(<<p[2], p[3]>>, 1, s, i, <<>>) IN
         IF IsPOk(r) THEN POk(Bool(IsPrefix(CharsOf(p[3]), CharsOf(p[2]))), r[3]) ELSE r
    [] k = "bind"    -> LET r == Parse(p[3], s, i) IN IF IsPOk(r) THEN Parse(BindTo(p[2], r[2]), s, r[3]) ELSE r
    [] k = "ref"     -> Parse(Rule(p[2]), s, i)
    [] k \in {"many", "many1"} ->
         LET r == Rep(p[2], s, i, <<>>) IN
         IF ~IsPOk(r) THEN r ELSE IF k = "many1" /\ r[2] = <<>> THEN Fail ELSE POk(Block(r[2]), r[3])
    [] k \in {"sep_by", "sep_by1"} ->
         LET r == Parse(p[2], s, i)
             q == IF IsPOk(r) THEN Rep(<<"ignore_then", p[3], p[2]>>, s, r[3], <<r[2]>>) ELSE r
         IN  IF q = Fail THEN (IF k = "sep_by" THEN POk(Block(<<>>), i) ELSE Fail)
             ELSE IF IsPOk(q) THEN POk(Block(q[2]), q[3]) ELSE q
    [] k = "pint"    ->
         LET neg == i < Len(s) /\ At(s, i) = "-"
             b == IF neg THEN i + 1 ELSE i
             e == EndOf(s, b, Digits)
         IN  IF e = b THEN Fail ELSE POk(DecInt(neg, Chars(s, b, e)), e)
    [] k = "pfloat"  ->
         LET neg == i < Len(s) /\ At(s, i) = "-"
             b == IF neg THEN i + 1 ELSE i
             e == EndOf(s, b, Digits)
             f == IF e < Len(s) /\ At(s, e) = "." THEN EndOf(s, e + 1, Digits) ELSE e
             z == IF f > e + 1 THEN f ELSE e
         IN  IF e = b THEN Fail ELSE POk(<<"fltlit", Chars(s, i, z)>>, z)

(* can the parser succeed without consuming?  (repetition of those is not defined) *)
RECURSIVE Nullable(_)
Nullable(p) ==
  LET k == p[1] IN
  CASE k \in {"pchar", "any_of", "digit", "letter", "lower", "digits", "blank", "pint", "pfloat", "fail", "ref"} -> FALSE
    [] k = "pstring" -> p[2] = <<>>
    [] k \in {"preturn", "many", "sep_by", "opt"} -> TRUE
    [] k \in {"and_then", "then_ignore", "ignore_then", "starts_with"} -> Nullable(p[2]) /\ Nullable(p[3])
    [] k \in {"lift2", "apply"} -> Nullable(p[3]) /\ Nullable(p[4])
    [] k = "between" -> Nullable(p[2]) /\ Nullable(p[3]) /\ Nullable(p[4])
    [] k = "sequence" -> \A j \in 1..Len(p[2]) : Nullable(p[2][j])
    [] k = "or_else" -> Nullable(p[2]) \/ Nullable(p[3])
    [] k = "choice"  -> \E j \in 1..Len(p[2]) : Nullable(p[2][j])
    [] k \in {"map", "starmap", "bind"} -> Nullable(p[3])
    [] k \in {"ignore", "reent", "many1", "sep_by1"} -> Nullable(p[2])
    [] OTHER -> TRUE

(* laws of the grammar reading, checked on every generated parser and input *)
Law(p, s, i) ==
  LET r == Parse(p, s, i) IN
  /\ IsPOk(r) => i <= r[3] /\ r[3] <= Len(s)
  /\ IsPOk(r) /\ ~Nullable(p) => r[3] > i
  /\ Parse(<<"or_else", p, p>>, s, i) = r
  /\ Parse(<<"ignore_then", <<"preturn", None>>, p>>, s, i) = r
  /\ Parse(<<"or_else", <<"fail">>, p>>, s, i) = r
  /\ r = Fail => Parse(<<"opt", p>>, s, i) = POk(Nothing, i)
=============================================================================
