------------------------------ MODULE Result ------------------------------
(* A one-shot result shared by one producer and one consumer.              *)
(* The producer completes it once (value, exception, or by being dropped); *)
(* the consumer may poll, wait, wait with a time limit, and consume it     *)
(* once by get / await / resolve+get, or abandon it.  The consumer works   *)
(* from two places: its own thread ("d") and a coroutine ("c") to which it *)
(* may hand the result over; whoever does not own it finds it empty.       *)
EXTENDS Naturals, Sequences
VARIABLES pst,    \* producer: "idle" | "busy" | "done" | "left"
          out,    \* outcome chosen by the producer: s what get() yields, st its status
          own,    \* who owns the consumer side: "d" | "c" | "none"
          op,     \* [lane -> operation in progress ("none" if none)]
          early,  \* [lane -> the result was still unpublished when op was called]
          lim     \* [lane -> time limit of op in ms, or 0]
rvars == <<pst, out, own, op, early, lim>>

Lanes == {"d", "c"}
Polls == {"status", "wait_for", "wait_until"}
Ops   == Polls \cup {"wait", "get", "await", "resolve", "drop"}
Published == pst \in {"done", "left"}
NoOut == [s |-> "none", st |-> "none"]

RInit == /\ pst = "idle" /\ out = NoOut /\ own = "d"
         /\ op = [l \in Lanes |-> "none"] /\ early = [l \in Lanes |-> FALSE]
         /\ lim = [l \in Lanes |-> 0]

ProdCall(o) == /\ pst = "idle" /\ pst' = "busy" /\ out' = o
               /\ UNCHANGED <<own, op, early, lim>>
Publish     == /\ pst = "busy" /\ pst' = "done"
               /\ UNCHANGED <<out, own, op, early, lim>>
ProdRet     == /\ pst = "done" /\ pst' = "left"
               /\ UNCHANGED <<out, own, op, early, lim>>

Call(l, o, a) == /\ op[l] = "none" /\ o \in Ops
                 /\ op' = [op EXCEPT ![l] = o]
                 /\ lim' = [lim EXCEPT ![l] = a]
                 /\ early' = [early EXCEPT ![l] = ~Published]
                 \* awaiting hands the result to the coroutine
                 /\ own' = IF o \in {"await", "resolve"} /\ own = "d" THEN "c" ELSE own
                 /\ UNCHANGED <<pst, out>>

\* What the operation in progress may answer now (d: how long it took, ms).
May(l, r, d) ==
  IF own # l THEN IF op[l] = "drop" THEN r = "ok" ELSE r = "empty"
  ELSE CASE op[l] = "drop"    -> r = "ok"
         [] op[l] = "status"  -> \/ r = "idle" /\ early[l]
                                 \/ r = out.st /\ Published
         [] op[l] \in {"wait_for", "wait_until"}
                              -> \/ r = "idle" /\ early[l] /\ d >= lim[l]
                                 \/ r = out.st /\ Published
         [] op[l] = "wait"    -> r = "ok" /\ Published
         [] op[l] = "resolve" -> r = out.st /\ Published
         [] op[l] \in {"get", "await"}
                              -> Published /\ r = out.s
         [] OTHER             -> FALSE
Ret(l, o, r, d) == /\ op[l] = o /\ May(l, r, d)
                   /\ own' = IF o \in {"get", "await", "drop"} /\ own = l THEN "none" ELSE own
                   /\ op' = [op EXCEPT ![l] = "none"]
                   /\ early' = [early EXCEPT ![l] = FALSE]
                   /\ lim' = [lim EXCEPT ![l] = 0]
                   /\ UNCHANGED <<pst, out>>

\* Nothing may be left hanging once the producer is through.
Finished == (\A l \in Lanes : op[l] = "none") /\ pst = "left"

\* ---- the specification as a closed system, for model checking ----------
Outs == {[s |-> "val1", st |-> "value"], [s |-> "exc1", st |-> "exception"],
         [s |-> "broken", st |-> "exception"]}
Answers == {"ok", "idle", "value", "exception", "empty", "val1", "exc1", "broken"}
RNext == \/ \E o \in Outs : ProdCall(o)
         \/ Publish \/ ProdRet
         \/ \E l \in Lanes, o \in Ops, a \in 0..1 : Call(l, o, a)
         \/ \E l \in Lanes, o \in Ops, r \in Answers, d \in 0..1 : Ret(l, o, r, d)
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(Publish)
         /\ \A l \in Lanes : WF_rvars(\E r \in Answers, d \in 0..1 : Ret(l, op[l], r, d))

TypeOK == /\ pst \in {"idle", "busy", "done", "left"} /\ own \in Lanes \cup {"none"}
          /\ op \in [Lanes -> Ops \cup {"none"}] /\ early \in [Lanes -> BOOLEAN]
\* a value is only ever handed out once it is published, and only to the owner
NoEarlyValue == [][\A l \in Lanes : (own = l /\ own' = "none" /\ op[l] \in {"get", "await"}) => Published]_rvars
ConsumedOnce == [][own = "none" => own' = "none"]_rvars
\* once the producer is through, no operation keeps hanging
Released == \A l \in Lanes : (pst = "left" /\ op[l] # "none") ~> op[l] = "none"
=============================================================================
