------------------------------ MODULE RpcCalls ------------------------------
(* The table of calls of a connection: callers enter their call when they    *)
(* write it, answers take it out, the end of the connection clears it.       *)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Bug     \* "none" | "late" | "noclear" | "nocheck" | "apart"
VARIABLES pc, lock, wire, answers, table, closed, told, missed, closing
vars == <<pc, lock, wire, answers, table, closed, told, missed, closing>>
Init == /\ pc = [c \in Callers |-> "idle"] /\ lock = 0 /\ wire = {} /\ answers = {}
        /\ table = {} /\ closed = FALSE /\ told = [c \in Callers |-> 0] /\ missed = FALSE /\ closing = "no"
Take(p) == lock = 0 /\ lock' = p
Free == lock' = 0
Tell(S) == told' = [c \in Callers |-> IF c \in S THEN told[c] + 1 ELSE told[c]]
\* a caller
Enter(c) == pc[c] = "idle" /\ Take(c) /\ pc' = [pc EXCEPT ![c] = "check"]
            /\ UNCHANGED <<wire, answers, table, closed, told, missed, closing>>
Check(c) == /\ pc[c] = "check"
            /\ IF closed /\ Bug # "nocheck"
               THEN pc' = [pc EXCEPT ![c] = "done"] /\ Tell({c}) /\ Free
               ELSE pc' = [pc EXCEPT ![c] = "write"] /\ UNCHANGED <<told, lock>>
            /\ UNCHANGED <<wire, answers, table, closed, missed, closing>>
Write(c) == /\ pc[c] = "write" /\ wire' = IF closed THEN wire ELSE wire \cup {c}
            /\ pc' = [pc EXCEPT ![c] = "register"]
            /\ IF Bug = "late" THEN Free ELSE UNCHANGED lock
            /\ UNCHANGED <<answers, table, closed, told, missed, closing>>
Register(c) == /\ pc[c] = "register" /\ table' = table \cup {c}
               /\ pc' = [pc EXCEPT ![c] = "wait"]
               /\ IF Bug = "late" THEN UNCHANGED lock ELSE Free
               /\ UNCHANGED <<wire, answers, closed, told, missed, closing>>
\* the other side
Answer(c) == c \in wire /\ wire' = wire \ {c} /\ answers' = answers \cup {c}
             /\ UNCHANGED <<pc, lock, table, closed, told, missed, closing>>
\* the thread that works on the connection
Handle(c) == /\ c \in answers /\ ~closed /\ lock = 0 /\ closing = "no" /\ answers' = answers \ {c}
             /\ IF c \in table THEN table' = table \ {c} /\ Tell({c}) /\ UNCHANGED missed
                ELSE missed' = TRUE /\ UNCHANGED <<table, told>>
             /\ UNCHANGED <<pc, lock, wire, closed, closing>>
End == /\ closing = "no" /\ closing' = "end" /\ UNCHANGED <<pc, lock, wire, answers, table, closed, told, missed>>
Clear == /\ closing = "end" /\ lock = 0 /\ closing' = IF Bug = "apart" THEN "apart" ELSE "ended"
         /\ IF Bug = "noclear" THEN UNCHANGED <<table, told>> ELSE table' = {} /\ Tell(table)
         /\ closed' = (Bug # "apart") /\ UNCHANGED <<pc, lock, wire, answers, missed>>
Close == /\ closing = "apart" /\ lock = 0 /\ closing' = "ended" /\ closed' = TRUE
         /\ UNCHANGED <<pc, lock, wire, answers, table, told, missed>>
Next == \/ \E c \in Callers : Enter(c) \/ Check(c) \/ Write(c) \/ Register(c) \/ Answer(c) \/ Handle(c)
        \/ End \/ Clear \/ Close
Spec == Init /\ [][Next]_vars
AtMostOnce == \A c \in Callers : told[c] <= 1
Found == ~missed
Quiet == closing = "ended" /\ \A c \in Callers : pc[c] \in {"wait", "done"}
NoneWaits == Quiet => \A c \in Callers : told[c] = 1
=============================================================================
