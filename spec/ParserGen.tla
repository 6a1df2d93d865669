----------------------------- MODULE ParserGen -----------------------------
(***************************************************************************)
(* Every parser of two levels of combinators over a few leaves, run on     *)
(* every input over {a, b} up to a length from every start position.       *)
(* One state per parser; the state's results are printed for replay.       *)
(***************************************************************************)
EXTENDS Parser
CONSTANTS MaxLen, Deep
VARIABLES st, par

Leaves == { <<"pchar", "a">>, <<"pchar", "b">>, <<"any_of", <<"b", "a">> >>, <<"pstring", <<"a", "b">> >>,
            <<"pstring", <<>> >>, <<"preturn", None>>, <<"fail">>, <<"letter">> }
Few == { <<"pchar", "a">>, <<"pstring", <<"a", "b">> >>, <<"preturn", I(0)>> }
MapFns == {"f", "none", "boomV"}
Un(p) ==
  { <<"map", f, p>> : f \in MapFns } \cup { <<"bind", b, p>> : b \in {"b_same", "b_pair", "b_fail", "b_many"} }
  \cup { <<o, p>> : o \in {"opt", "ignore", "reent"} }
  \cup { <<o, p>> : o \in IF Nullable(p) THEN {} ELSE {"many", "many1"} }
Bin(p, q) ==
  { <<o, p, q>> : o \in {"and_then", "or_else", "then_ignore", "ignore_then"} }
  \cup { <<o, "f", p, q>> : o \in {"lift2", "apply"} }
  \cup { <<"starmap", "f", <<"and_then", p, q>> >> }
  \cup { <<o, p, q>> : o \in IF Nullable(p) /\ Nullable(q) THEN {} ELSE {"sep_by", "sep_by1"} }
Tri(p, q, r) == { <<"between", p, q, r>>, <<"choice", <<p, q, r>> >>, <<"sequence", <<p, q, r>> >> }
L1 == UNION { Un(p) : p \in Few } \cup UNION { Bin(p, q) : p, q \in Few }
(* for the second level: parsers that backtrack, repeat, or may consume nothing *)
Mid == { <<"and_then", <<"pchar", "a">>, <<"pchar", "b">> >>, <<"or_else", <<"pstring", <<"a", "b">> >>, <<"pchar", "a">> >>,
         <<"many", <<"pchar", "a">> >>, <<"many1", <<"pstring", <<"a", "b">> >> >>, <<"opt", <<"pchar", "b">> >>,
         <<"sep_by", <<"pchar", "a">>, <<"pchar", "b">> >>, <<"sep_by1", <<"pchar", "a">>, <<"pchar", "b">> >>,
         <<"sequence", << <<"pchar", "a">>, <<"any_of", <<"a", "b">> >> >> >>, <<"bind", "b_same", <<"letter">> >>,
         <<"map", "none", <<"pchar", "a">> >>, <<"choice", << <<"fail">>, <<"pchar", "b">> >> >>, <<"sequence", <<>> >>,
         <<"starts_with", <<"pstring", <<"a", "b">> >>, <<"pchar", "a">> >> }

Inputs == UNION { [1..n -> {"a", "b"}] : n \in 0..MaxLen }
Results(p) == UNION { { <<s, i, Parse(p, s, i)>> : i \in {0, 1} \cap 0..Len(s) } : s \in Inputs }
Out(p) == par' = <<p>>

Init == par = <<>> /\ st \in { <<"leaf">> } \cup { <<"un", p>> : p \in Leaves \cup L1 } \cup { <<"bin", p>> : p \in Leaves }
                          \cup { <<"tri", p>> : p \in Few } \cup { <<"mid", p>> : p \in Mid } \cup (IF Deep THEN { <<"mid2", p>> : p \in L1 \cup Mid } ELSE {})
Next ==
  /\ par = <<>>
  /\ st' = <<"done">>
  /\ CASE st[1] = "leaf" -> \E p \in Leaves \cup {<<"lower">>, <<"digit">>, <<"digits">>, <<"blank">>, <<"pint">>, <<"pfloat">>} : Out(p)
       [] st[1] = "un"   -> \E p \in Un(st[2]) : Out(p)
       [] st[1] = "bin"  -> \E q \in Leaves : \E p \in Bin(st[2], q) : Out(p)
       [] st[1] = "tri"  -> \E q, r \in Few \cup {<<"fail">>, <<"pchar", "b">>} : \E p \in Tri(st[2], q, r) : Out(p)
       [] st[1] = "mid"  -> \E q \in Mid : \E p \in Un(st[2]) \cup Bin(st[2], q) \cup Tri(st[2], q, <<"pchar", "b">>) : Out(p)
       [] st[1] = "mid2" -> \E q \in L1 \cup Mid : \E p \in Bin(st[2], q) \cup Tri(st[2], q, st[2]) : Out(p)
Spec == Init /\ [][Next]_<<st, par>>

Lawful == par = <<>> \/ \A s \in Inputs : Len(s) <= 2 => Law(par[1], s, 0)
Emit == par = <<>> \/ PrintT("@" \o ToJson([p |-> par[1], runs |-> Results(par[1])]))
=============================================================================
