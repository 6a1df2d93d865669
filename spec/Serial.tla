------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* Option, Result and Block as pydantic types.                             *)
(*                                                                         *)
(* Types are terms; DumpT gives the plain representation of a value of a   *)
(* type (mode "py": Python data, mode "js": JSON data), Valid what         *)
(* validation of plain data gives: <<"valid", value>>, <<"invalid">>, or   *)
(* <<"unspecified">> where pydantic's own conversions (an int for a bool,  *)
(* ...) would be needed to tell.                                           *)
(***************************************************************************)
EXTENDS Terms

Date(s) == <<"date", s>>
Flt(s) == <<"flt", s>>
Dct(pairs) == <<"dct", pairs>>         \* <<name, datum>> pairs
Mdl(name, pairs) == <<"model", name, pairs>>

Opt(T) == <<"opt", T>>
Blk(T) == <<"blk", T>>
Res(T, E) == <<"res", T, E>>
IntT == <<"int">>
StrT == <<"str">>
Model(n) == <<"model", n>>
(* <<field, type, required>>; fields that are not required default to the value of Default *)
Fields(n) ==
  CASE n = "M" -> << <<"x", IntT, TRUE>>, <<"y", Opt(StrT), FALSE>> >>
    [] n = "N" -> << <<"m", Opt(Model("M")), TRUE>>, <<"r", Res(Model("M"), StrT), TRUE>>, <<"b", Blk(Opt(IntT)), FALSE>> >>
    [] n = "Tree" -> << <<"v", IntT, TRUE>>, <<"kids", Blk(Model("Tree")), FALSE>>, <<"o", Opt(Model("Tree")), FALSE>> >>
Default(T) == IF T[1] = "opt" THEN Nothing ELSE Block(<<>>)

RECURSIVE DumpT(_, _, _)
DumpT(T, v, mode) ==
  LET k == T[1] IN
  CASE k = "date" -> IF mode = "js" THEN Str(v[2]) ELSE v
    [] k = "opt"  -> IF v = Nothing THEN None ELSE DumpT(T[2], Val(v), mode)
    [] k = "blk"  -> List([i \in 1..Len(v[2]) |-> DumpT(T[2], v[2][i], mode)])
    [] k = "lst"  -> List([i \in 1..Len(v[2]) |-> DumpT(T[2], v[2][i], mode)])
    [] k = "pair" -> LET s == <<DumpT(T[2], v[2][1], mode), DumpT(T[3], v[2][2], mode)>> IN IF mode = "js" THEN List(s) ELSE Tup(s)
    [] k = "dic"  -> Dct([i \in 1..Len(v[2]) |-> <<v[2][i][1], DumpT(T[2], v[2][i][2], mode)>>])
    [] k = "res"  -> IF IsOk(v) THEN Dct(<< <<"tag", Str("ok")>>, <<"ok", DumpT(T[2], Val(v), mode)>> >>)
                     ELSE Dct(<< <<"tag", Str("error")>>, <<"error", DumpT(T[3], Val(v), mode)>> >>)
    [] k = "model" -> Dct([i \in 1..Len(v[3]) |-> <<v[3][i][1], DumpT(Fields(T[2])[i][2], v[3][i][2], mode)>>])
    [] OTHER -> v

Valid1(v) == <<"valid", v>>
Invalid == <<"invalid">>
Unspec == <<"unspecified">>
IsDateStr(s) == s \in {"2020-01-02", "1999-12-31"}
(* a sequence of outcomes as one *)
Merge(rs, K(_)) ==
  IF \E i \in 1..Len(rs) : rs[i] = Invalid THEN Invalid
  ELSE IF \E i \in 1..Len(rs) : rs[i] = Unspec THEN Unspec
  ELSE Valid1(K([i \in 1..Len(rs) |-> rs[i][2]]))
Has(d, n) == \E i \in 1..Len(d[2]) : d[2][i][1] = n
Get(d, n) == d[2][CHOOSE i \in 1..Len(d[2]) : d[2][i][1] = n][2]

RECURSIVE Valid(_, _, _)
Valid(T, p, mode) ==
  LET k == T[1]
      q == p[1]
      Each(U, K(_)) == LET rs == [i \in 1..Len(p[2]) |-> Valid(U, p[2][i], mode)] IN Merge(rs, K)
  IN
  CASE k = "any" -> IF q \in {"int", "str", "list"} THEN Valid1(p) ELSE Unspec
    [] k \in {"int", "nat"} -> IF q = "int" THEN (IF k = "nat" /\ p[2] < 0 THEN Invalid ELSE Valid1(p)) ELSE IF q = "bool" THEN Unspec ELSE Invalid
    [] k = "str" -> IF q = "str" THEN Valid1(p) ELSE Invalid
    [] k = "bool" -> IF q = "bool" THEN Valid1(p) ELSE IF q = "int" /\ p[2] \in {0, 1} THEN Unspec ELSE IF q = "flt" THEN Unspec ELSE Invalid
    [] k = "flt" -> IF q = "flt" THEN Valid1(p) ELSE IF q \in {"int", "bool"} THEN Unspec ELSE Invalid
    [] k = "date" -> IF q = "date" THEN Valid1(p)
                     ELSE IF q = "str" THEN (IF IsDateStr(p[2]) THEN Valid1(Date(p[2])) ELSE Invalid)
                     ELSE IF q \in {"int", "flt", "bool"} THEN Unspec ELSE Invalid
    [] k = "opt" -> IF p = None THEN Valid1(Nothing) ELSE LET r == Valid(T[2], p, mode) IN IF r[1] = "valid" THEN Valid1(Some(r[2])) ELSE r
    [] k = "blk" -> IF q = "list" THEN Each(T[2], LAMBDA s : Block(s)) ELSE IF q = "tup" \/ (q = "str" /\ mode = "py") THEN Unspec ELSE Invalid
    [] k = "lst" -> IF q = "list" THEN Each(T[2], LAMBDA s : List(s)) ELSE IF q = "tup" THEN Unspec ELSE Invalid
    [] k = "pair" -> IF q \in {"tup", "list"} THEN
                        IF Len(p[2]) # 2 THEN Invalid
                        ELSE Merge(<<Valid(T[2], p[2][1], mode), Valid(T[3], p[2][2], mode)>>, LAMBDA s : Tup(s))
                     ELSE Invalid
    [] k = "dic" -> IF q = "dct" THEN
                        LET rs == [i \in 1..Len(p[2]) |-> Valid(T[2], p[2][i][2], mode)]
                        IN  Merge(rs, LAMBDA s : Dct([i \in 1..Len(s) |-> <<p[2][i][1], s[i]>>]))
                     ELSE Invalid
    [] k = "res" -> IF q # "dct" THEN Invalid
                    ELSE IF ~Has(p, "ok") /\ ~Has(p, "error") THEN Invalid
                    ELSE IF Len(p[2]) # 2 \/ ~Has(p, "tag") \/ (Has(p, "ok") /\ Get(p, "tag") # Str("ok")) \/ (Has(p, "error") /\ Get(p, "tag") # Str("error")) THEN Unspec
                    ELSE IF Has(p, "ok") THEN LET r == Valid(T[2], Get(p, "ok"), mode) IN IF r[1] = "valid" THEN Valid1(Ok(r[2])) ELSE r
                    ELSE LET r == Valid(T[3], Get(p, "error"), mode) IN IF r[1] = "valid" THEN Valid1(Err(r[2])) ELSE r
    [] k = "model" ->
         LET fs == Fields(T[2]) IN
         IF q # "dct" THEN Invalid
         ELSE IF \E i \in 1..Len(p[2]) : \A j \in 1..Len(fs) : fs[j][1] # p[2][i][1] THEN Unspec
         ELSE Merge([j \in 1..Len(fs) |-> IF Has(p, fs[j][1]) THEN Valid(fs[j][2], Get(p, fs[j][1]), mode)
                                          ELSE IF fs[j][3] THEN Invalid ELSE Valid1(Default(fs[j][2]))],
                    LAMBDA s : Mdl(T[2], [j \in 1..Len(fs) |-> <<fs[j][1], s[j]>>]))

(* Some of a value represented as null cannot be told from Nothing *)
RECURSIVE Ambiguous(_, _)
Ambiguous(T, v) ==
  LET k == T[1] IN
  CASE k = "opt" -> v # Nothing /\ (DumpT(T[2], Val(v), "py") = None \/ Ambiguous(T[2], Val(v)))
    [] k \in {"blk", "lst"} -> \E i \in 1..Len(v[2]) : Ambiguous(T[2], v[2][i])
    [] k = "pair" -> Ambiguous(T[2], v[2][1]) \/ Ambiguous(T[3], v[2][2])
    [] k = "dic" -> \E i \in 1..Len(v[2]) : Ambiguous(T[2], v[2][i][2])
    [] k = "res" -> Ambiguous(IF IsOk(v) THEN T[2] ELSE T[3], Val(v))
    [] k = "model" -> \E i \in 1..Len(v[3]) : Ambiguous(Fields(T[2])[i][2], v[3][i][2])
    [] OTHER -> FALSE

(* plain data with one node replaced, a field removed, or an item removed *)
Junk == {None, Str("x!"), I(0 - 7), Dct(<<>>), List(<<>>), Flt("1.5"), Bool(TRUE)}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Damage(_)
Damage(p) ==
  (Junk \ {p}) \cup
  (IF p[1] \in {"list", "tup"} THEN
     UNION { { <<p[1], [p[2] EXCEPT ![i] = d]>> : d \in Damage(p[2][i]) } : i \in 1..Len(p[2]) } \cup { <<p[1], Without(p[2], i)>> : i \in 1..Len(p[2]) }
   ELSE IF p[1] = "dct" THEN
     UNION { { Dct([p[2] EXCEPT ![i][2] = d]) : d \in Damage(p[2][i][2]) } : i \in 1..Len(p[2]) } \cup { Dct(Without(p[2], i)) : i \in 1..Len(p[2]) }
   ELSE {})

RoundTrip(T, v) == Ambiguous(T, v) \/ \A m \in {"py", "js"} : Valid(T, DumpT(T, v, m), m) = Valid1(v)
Outcome(T, v, damaged) ==
  [T |-> T, v |-> v, amb |-> Ambiguous(T, v), py |-> DumpT(T, v, "py"), js |-> DumpT(T, v, "js"),
   dpy |-> IF damaged THEN { <<d, Valid(T, d, "py")>> : d \in Damage(DumpT(T, v, "py")) } ELSE {},
   djs |-> IF damaged THEN { <<d, Valid(T, d, "js")>> : d \in Damage(DumpT(T, v, "js")) } ELSE {}]
=============================================================================
