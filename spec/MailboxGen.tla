----------------------------- MODULE MailboxGen -----------------------------
(* Command sequences for the driver: which calls are made in which order, with or without letting the event loop run.  *)
(* P post, R receive, C cancel the last receive, X cancel the token, T one turn of the loop, I until nothing moves,     *)
(* Q request, W await the last request, V cancel that await, A/B/E answer the oldest/newest/oldest-again request.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Cmds, Len_, MP, MR, MC, MX, MQ, MA
VARIABLES cmds
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Limit(c) == CASE c = "P" -> MP [] c = "R" -> MR [] c = "C" -> MC [] c = "X" -> MX [] c \in {"Q", "W"} -> MQ [] c \in {"A", "B", "E"} -> MA [] c = "V" -> 1 [] OTHER -> 99
Useful(s, c) ==
  /\ Count(s, c) < Limit(c)
  /\ c \in {"T", "I"} => s # <<>> /\ s[Len(s)] # "I" /\ (c = "I" => s[Len(s)] # "T")
  /\ c = "C" => Count(s, "R") > Count(s, "C")
  /\ c = "W" => Count(s, "Q") > Count(s, "W")
  /\ c = "V" => Count(s, "W") > Count(s, "V")
  /\ c \in {"A", "B", "E"} => Count(s, "Q") > 0
Init == cmds = <<>>
Next == Len(cmds) < Len_ /\ \E c \in Cmds : Useful(cmds, c) /\ cmds' = Append(cmds, c)
Spec == Init /\ [][Next]_cmds
Emit == Len(cmds) < 2 \/ PrintT("@" \o ToJson([cmds |-> cmds]))
=============================================================================
