-------------------------------- MODULE Cast --------------------------------
(***************************************************************************)
(* Casts over a class hierarchy.  Classes is a sequence of records         *)
(* [name, bases]: bases are the direct (also registered) base classes.     *)
(* A value is <<"inst", class, i>>; a type is <<"cls", class>> or          *)
(* <<"gen", class>> (the class with type arguments, which do not matter).  *)
(***************************************************************************)
EXTENDS Terms
CONSTANT Classes
Names == { Classes[i].name : i \in 1..Len(Classes) }
BasesOf == [ c \in Names |-> LET r == Classes[CHOOSE i \in 1..Len(Classes) : Classes[i].name = c] IN { r.bases[j] : j \in 1..Len(r.bases) } ]
RECURSIVE Grow(_)
Grow(S) == LET T == S \cup UNION { BasesOf[c] : c \in S } IN IF T = S THEN S ELSE Grow(T)
Above == [ c \in Names |-> Grow({c}) ]
Fits(x, T) == T[2] \in Above[x[2]]

CastEval(op, a) ==
  R(CASE op = "upcast" -> a[2]
      [] op = "downcast" -> IF Fits(a[2], a[1]) THEN a[2] ELSE Raise("AssertionError")
      [] op = "try_downcast" -> IF Fits(a[2], a[1]) THEN a[2] ELSE None
      [] op = "failwith" -> Tup(<<Str("Exception"), a[1]>>))

(* laws: a cast that succeeds gives the value itself, casting further down a chain agrees with casting at once *)
Laws == \A c \in Names : c \in Above[c] /\ \A d \in Above[c] : Above[d] \subseteq Above[c]
=============================================================================
