------------------------------- MODULE Cancel -------------------------------
(* A cancellation source.  Registrations, disposals of registrations, cancellations and reads overlap; each has one     *)
(* atomic step.  The first cancellation to take its step takes the callbacks that are live at that moment, in           *)
(* registration order, and calls each of them before it ends.                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
  cancelled,
  live,      \* the live registrations, a sequence of <<registration, function>> in registration order
  gone,      \* registrations disposed after the cancellation: their callback may be skipped if it was not called yet
  taken,     \* registrations some disposal has claimed
  op         \* op[o]: state of operation o
cvars == <<cancelled, live, gone, taken, op>>
Idle == [k |-> "idle"]
CInit(Ops) == cancelled = FALSE /\ live = <<>> /\ gone = {} /\ taken = {} /\ op = [o \in Ops |-> Idle]
RBegin(o, k, f) == op[o] = Idle /\ op' = [op EXCEPT ![o] = [k |-> "reg", reg |-> k, f |-> f, st |-> "next"]] /\ UNCHANGED <<cancelled, live, gone, taken>>
RStep(o) ==
  /\ op[o].k = "reg" /\ op[o].st = "next"
  /\ IF cancelled THEN op' = [op EXCEPT ![o].st = "refused"] /\ UNCHANGED live
     ELSE op' = [op EXCEPT ![o].st = "ok"] /\ live' = Append(live, <<op[o].reg, op[o].f>>)
  /\ UNCHANGED <<cancelled, gone, taken>>
REnd(o, r) == op[o].k = "reg" /\ op[o].st = r /\ r # "next" /\ op' = [op EXCEPT ![o] = [k |-> "done"]] /\ UNCHANGED <<cancelled, live, gone, taken>>

UBegin(o, k) == op[o] = Idle /\ op' = [op EXCEPT ![o] = [k |-> "unreg", reg |-> k, st |-> "next"]] /\ UNCHANGED <<cancelled, live, gone, taken>>
(* overlapping disposals of one registration: the first to get there removes it, the others do nothing *)
UStep(o) ==
  /\ op[o].k = "unreg"
  /\ \/ op[o].st = "next" /\ op[o].reg \in taken /\ op' = [op EXCEPT ![o].st = "ok"] /\ UNCHANGED <<live, gone, taken>>
     \/ op[o].st = "next" /\ op[o].reg \notin taken /\ op' = [op EXCEPT ![o].st = "removing"] /\ taken' = taken \cup {op[o].reg} /\ UNCHANGED <<live, gone>>
     \/ /\ op[o].st = "removing"
        /\ op' = [op EXCEPT ![o].st = "ok"]
        /\ live' = SelectSeq(live, LAMBDA x : x[1] # op[o].reg)
        /\ gone' = IF cancelled THEN gone \cup {op[o].reg} ELSE gone
        /\ UNCHANGED taken
  /\ UNCHANGED cancelled
UEnd(o, r) == op[o].k = "unreg" /\ op[o].st = r /\ r \notin {"next", "removing"} /\ op' = [op EXCEPT ![o] = [k |-> "done"]] /\ UNCHANGED <<cancelled, live, gone, taken>>

XBegin(o) == op[o] = Idle /\ op' = [op EXCEPT ![o] = [k |-> "cancel", st |-> "next", todo |-> <<>>, in |-> 0]] /\ UNCHANGED <<cancelled, live, gone, taken>>
XStep(o) ==
  /\ op[o].k = "cancel" /\ op[o].st = "next"
  /\ cancelled' = TRUE
  /\ op' = [op EXCEPT ![o].st = "calling", ![o].todo = IF cancelled THEN <<>> ELSE live]
  /\ UNCHANGED <<live, gone, taken>>
(* the callback with function f is called by operation o; callbacks disposed meanwhile may be passed over *)
XCall(o, f) ==
  /\ op[o].k = "cancel" /\ op[o].st = "calling" /\ op[o].in = 0
  /\ \E i \in 1..Len(op[o].todo) :
       /\ op[o].todo[i][2] = f /\ \A j \in 1..(i - 1) : op[o].todo[j][1] \in gone
       /\ op' = [op EXCEPT ![o].todo = SubSeq(@, i + 1, Len(@)), ![o].in = f]
  /\ UNCHANGED <<cancelled, live, gone, taken>>
XBack(o, f) == op[o].k = "cancel" /\ op[o].in = f /\ op' = [op EXCEPT ![o].in = 0] /\ UNCHANGED <<cancelled, live, gone, taken>>
XEnd(o, r) ==
  /\ op[o].k = "cancel" /\ op[o].st = "calling" /\ op[o].in = 0 /\ r = "ok"
  /\ \A j \in 1..Len(op[o].todo) : op[o].todo[j][1] \in gone
  /\ op' = [op EXCEPT ![o] = [k |-> "done"]] /\ UNCHANGED <<cancelled, live, gone, taken>>

QBegin(o) == op[o] = Idle /\ op' = [op EXCEPT ![o] = [k |-> "read", st |-> "next"]] /\ UNCHANGED <<cancelled, live, gone, taken>>
QStep(o) == op[o].k = "read" /\ op[o].st = "next" /\ op' = [op EXCEPT ![o].st = IF cancelled THEN "yes" ELSE "no"] /\ UNCHANGED <<cancelled, live, gone, taken>>
QEnd(o, r) == op[o].k = "read" /\ op[o].st = r /\ r # "next" /\ op' = [op EXCEPT ![o] = [k |-> "done"]] /\ UNCHANGED <<cancelled, live, gone, taken>>
Steps(o) == RStep(o) \/ UStep(o) \/ XStep(o) \/ QStep(o)
=============================================================================
