--------------------------------- MODULE Lazy ---------------------------------
(* Lazy results: nothing runs before the result is awaited, resolved or run;    *)
(* then it runs exactly once, to the end, before the caller goes on, and its    *)
(* outcome is handed out once.  Dropping one that was not started runs nothing. *)
EXTENDS Integers, Sequences
VARIABLES defs,   \* [i -> [thr, nest]]
          ls,     \* [i -> "none" | "fresh" | "done"] the handle
          stack,  \* bodies in progress, innermost last
          cur     \* [op, i] in progress
lvars == <<defs, ls, stack, cur>>
NoOp == [op |-> "none", i |-> 0, body |-> "none"]
LInit(d) == defs = d /\ ls = [i \in DOMAIN d |-> "none"] /\ stack = <<>> /\ cur = NoOp
LCall(o, i) == /\ cur = NoOp /\ stack = <<>>
               /\ cur' = [op |-> o, i |-> i, body |-> IF o \in {"resolve", "await", "run"} /\ ls[i] = "fresh" THEN "due" ELSE "none"]
               /\ UNCHANGED <<defs, ls, stack>>
\* a body starts because it is due, or because the innermost body awaits it
LStart(i) == \/ /\ stack = <<>> /\ cur.body = "due" /\ cur.i = i
                /\ stack' = <<[i |-> i, nested |-> defs[i].nest = 0]>>
                /\ UNCHANGED <<defs, ls, cur>>
             \/ /\ stack # <<>>
                /\ LET top == stack[Len(stack)] IN
                   /\ ~top.nested /\ defs[top.i].nest = i
                   /\ stack' = Append([stack EXCEPT ![Len(stack)].nested = TRUE], [i |-> i, nested |-> defs[i].nest = 0])
                /\ UNCHANGED <<defs, ls, cur>>
LFin(i) == /\ stack # <<>> /\ stack[Len(stack)] = [i |-> i, nested |-> TRUE]
           /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
           /\ cur' = IF Len(stack) = 1 THEN [cur EXCEPT !.body = "done"] ELSE cur
           /\ UNCHANGED <<defs, ls>>
LRet(o, i, r, outcome) ==
  /\ cur.op = o /\ cur.i = i /\ stack = <<>> /\ cur.body # "due"
  /\ CASE o = "make" -> r = "ok" /\ ls' = [ls EXCEPT ![i] = "fresh"]
       [] o = "drop" -> r = "ok" /\ ls' = [ls EXCEPT ![i] = "none"]
       [] o = "move" -> r = "ok" /\ ls' = ls
       [] o = "status" -> /\ r = CASE ls[i] = "none" -> "empty" [] ls[i] = "fresh" -> "idle"
                                   [] OTHER -> IF defs[i].thr THEN "exception" ELSE "value"
                          /\ ls' = ls
       [] o = "resolve" -> IF ls[i] = "none" THEN r = "empty" /\ ls' = ls
                           ELSE r = "ok" /\ ls' = [ls EXCEPT ![i] = "done"]
       [] o \in {"await", "run"} -> IF ls[i] = "none" THEN r = "empty" /\ ls' = ls
                           ELSE r = outcome /\ ls' = [ls EXCEPT ![i] = "none"]
       [] OTHER -> FALSE
  /\ cur' = NoOp /\ UNCHANGED <<defs, stack>>
=============================================================================
