-------------------------------- MODULE TaskObj --------------------------------
(* Task objects: each holds at most one callable.  A callable is run at most    *)
(* once, by the task object that holds it, and is released exactly once: right  *)
(* after it ran, or when the object is cleared, overwritten or destroyed.       *)
EXTENDS Integers, Sequences
VARIABLES slot,   \* [object -> callable held, 0 if none]
          due,    \* what the operation in progress still has to do, in order
          res     \* its answer
ovars == <<slot, due, res>>
Objects == 1..4
OInit == slot = [o \in Objects |-> 0] /\ due = <<>> /\ res = "none"
\* callables of the kind "plain" have nothing to release
Rel(k, plain) == IF k = 0 \/ k \in plain THEN <<>> ELSE <<[e |-> "die", k |-> k]>>
YesNo(b) == IF b THEN "yes" ELSE "no"
RECURSIVE RelAll(_, _)
RelAll(o, plain) == IF o > 4 THEN <<>> ELSE Rel(slot[o], plain) \o RelAll(o + 1, plain)
OCall(op, a, b, k, plain) ==
  /\ res = "none"
  /\ CASE op = "put" ->      \* a new callable
            slot' = [slot EXCEPT ![a] = k] /\ due' = Rel(slot[a], plain) /\ res' = "ok"
       [] op = "move" ->     \* a := what b holds
            IF a = b THEN slot' = slot /\ due' = <<>> /\ res' = "ok"
            ELSE slot' = [slot EXCEPT ![a] = slot[b], ![b] = 0] /\ due' = Rel(slot[a], plain) /\ res' = "ok"
       [] op = "through" ->  \* by way of a temporary object
            slot' = slot /\ due' = <<>> /\ res' = "ok"
       [] op = "swap" ->
            slot' = [slot EXCEPT ![a] = slot[b], ![b] = slot[a]] /\ due' = <<>> /\ res' = "ok"
       [] op = "clear" ->
            slot' = [slot EXCEPT ![a] = 0] /\ due' = Rel(slot[a], plain) /\ res' = "ok"
       [] op = "run" ->
            /\ slot' = [slot EXCEPT ![a] = 0] /\ res' = "ok"
            /\ due' = IF slot[a] = 0 THEN <<>> ELSE <<[e |-> "run", k |-> slot[a]]>> \o Rel(slot[a], plain)
       [] op = "holds" -> slot' = slot /\ due' = <<>> /\ res' = YesNo(slot[a] # 0)
       [] op = "over" -> slot' = [o \in Objects |-> 0] /\ due' = RelAll(1, plain) /\ res' = "ok"
       [] OTHER -> FALSE
ODo(e, k) == due # <<>> /\ Head(due) = [e |-> e, k |-> k] /\ due' = Tail(due) /\ UNCHANGED <<slot, res>>
ORet(r) == due = <<>> /\ res = r /\ res' = "none" /\ UNCHANGED <<slot, due>>
=============================================================================
