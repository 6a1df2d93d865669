------------------------------- MODULE AioGen -------------------------------
(* Programs: bodies, tokens and the commands of the driver.  S start the next computation, 1/2/3 open the next gate of  *)
(* that computation, X/Y cancel the first/second token, T one turn of the loop, I until nothing moves.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxBody, Stms, Toks, Cmds, MaxCmds
VARIABLES bodies, toks, cmds
Bodies == UNION {[1..n -> Stms] : n \in 0..MaxBody}
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Num(c) == CASE c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] OTHER -> 0
Useful(c) ==
  /\ c = "S" => Count(cmds, "S") < N
  /\ c \in {"1", "2", "3"} => Num(c) <= Count(cmds, "S") /\ Count(cmds, c) < Cardinality({k \in 1..Len(bodies[Num(c)]) : bodies[Num(c)][k] \in {"g", "ig"}})
  /\ c \in {"X", "Y"} => Count(cmds, c) < 1
  /\ c \in {"T", "I"} => cmds # <<>> /\ cmds[Len(cmds)] \notin {"I"} /\ Count(cmds, "S") > 0
  /\ c = "I" => cmds[Len(cmds)] # "T"
Init == bodies \in [1..N -> Bodies] /\ toks \in [1..N -> Toks] /\ cmds = <<>>
Next == Len(cmds) < MaxCmds /\ \E c \in Cmds : Useful(c) /\ cmds' = Append(cmds, c) /\ UNCHANGED <<bodies, toks>>
Spec == Init /\ [][Next]_<<bodies, toks, cmds>>
Emit == ~(Count(cmds, "S") = N /\ (Len(cmds) = MaxCmds \/ ~ENABLED Next)) \/ PrintT("@" \o ToJson([bodies |-> bodies, toks |-> toks, cmds |-> cmds]))
=============================================================================
