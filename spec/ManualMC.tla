------------------------------- MODULE ManualMC -------------------------------
(* The manual executor as a closed system: two threads, a few calls.           *)
EXTENDS Manual, TLC
CONSTANTS NC
VARIABLES posted, ran, dropped, calls
vars == <<mvars, posted, ran, dropped, calls>>
T == {1, 2}
Init == MInit(T) /\ posted = <<>> /\ ran = {} /\ dropped = {} /\ calls = 0
NewTask == Len(posted) + 1
OpsOf == {"post", "bpost", "size", "clear", "shutdown", "wait_for_task", "wait_for_tasks_for", "loop", "loop_once", "loop_once_for", "loop_for"}
Next ==
  \/ \E t \in T, o \in OpsOf : calls < NC /\ calls' = calls + 1 /\
       LET ks == CASE o = "post" -> <<NewTask>> [] o = "bpost" -> <<NewTask, NewTask + 1>> [] OTHER -> <<>> IN
       /\ Call(t, o, 2, 1, ks) /\ posted' = posted \o ks /\ UNCHANGED <<ran, dropped>>
  \/ \E t \in T : Hid(t) /\ UNCHANGED <<posted, ran, calls>>
       /\ dropped' = IF \E k \in {q[n] : n \in DOMAIN q} : k \notin {q'[n] : n \in DOMAIN q'} /\ \A u \in T : pc'[u].cur # k
                     THEN dropped \cup {q[n] : n \in DOMAIN q} ELSE dropped
  \/ \E t \in T, k \in 1..Len(posted) : Run(t, k) /\ ran' = ran \cup {k} /\ k \notin ran /\ UNCHANGED <<posted, dropped, calls>>
  \/ \E t \in T, r \in -1..4, d \in 0..1 : Ret(t, r, d) /\ UNCHANGED <<posted, ran, dropped, calls>>
Spec == Init /\ [][Next]_vars
Cur == {pc[t].cur : t \in T} \ {0}
Queue == {q[n] : n \in DOMAIN q}
\* a task is in one place at a time, and none is duplicated
Disjoint == /\ Queue \cap ran = {} /\ Queue \cap Cur = {} /\ Cur \cap ran = {} /\ dropped \cap (ran \cup Cur \cup Queue) = {}
            /\ Cardinality(Queue) = Len(q) /\ (pc[1].cur # 0 => pc[1].cur # pc[2].cur)
\* nothing is queued once the shutdown took effect, and only then is work lost
Closed == abort => q = <<>>
Fifo == [][\A t \in T : pc[t].cur = 0 /\ pc'[t].cur # 0 => pc'[t].cur = Head(q)]_vars
BoundedLoop == \A t \in T : pc[t].cnt <= Limit(pc[t])
=============================================================================
