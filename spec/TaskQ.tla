-------------------------------- MODULE TaskQ --------------------------------
(* A queue of tasks that threads put in and run: first in first out, each run    *)
(* once by the thread that took it, its outcome delivered; destroying the queue  *)
(* runs what is left and refuses more.                                           *)
EXTENDS Integers, Sequences
CONSTANT Threads
VARIABLES q, pc, enq, out, stop     \* queue; what a thread works at; pending enqueues; task -> outcome; queue being destroyed
qvars == <<q, pc, enq, out, stop>>
QIdle == [op |-> "idle", ph |-> "", k |-> 0]
QInit == /\ q = <<>> /\ pc = [t \in Threads |-> QIdle] /\ enq = [t \in Threads |-> [k |-> 0, ph |-> ""]]
         /\ out = [k \in {} |-> ""] /\ stop = FALSE
QEnq(t, k) == /\ enq[t].k = 0 /\ enq' = [enq EXCEPT ![t] = [k |-> k, ph |-> "asked"]] /\ UNCHANGED <<q, pc, out, stop>>
QEnqIn(t) == /\ enq[t].ph = "asked"
             /\ IF stop THEN enq' = [enq EXCEPT ![t].ph = "no"] /\ UNCHANGED q
                ELSE enq' = [enq EXCEPT ![t].ph = "in"] /\ q' = Append(q, enq[t].k)
             /\ UNCHANGED <<pc, out, stop>>
QEnqd(t, k, ok) == /\ enq[t].k = k /\ enq[t].ph = (IF ok THEN "in" ELSE "no") /\ enq' = [enq EXCEPT ![t] = [k |-> 0, ph |-> ""]]
                   /\ UNCHANGED <<q, pc, out, stop>>
\* op: "one", "all", "end" (destruction)
QWork(t, op) == /\ pc[t].op = "idle" /\ pc' = [pc EXCEPT ![t] = [op |-> op, ph |-> "go", k |-> 0]]
                /\ stop' = (stop \/ op = "end") /\ UNCHANGED <<q, enq, out>>
QTake(t) == /\ pc[t].ph = "go" /\ q # <<>> /\ pc' = [pc EXCEPT ![t].ph = "took", ![t].k = Head(q)] /\ q' = Tail(q)
            /\ UNCHANGED <<enq, out, stop>>
QNone(t) == /\ pc[t].ph = "go" /\ q = <<>> /\ pc' = [pc EXCEPT ![t].ph = "done"] /\ UNCHANGED <<q, enq, out, stop>>
QRun(t, k) == /\ pc[t].ph = "took" /\ pc[t].k = k /\ pc' = [pc EXCEPT ![t].ph = "run"] /\ UNCHANGED <<q, enq, out, stop>>
QRan(t, k) == /\ pc[t].ph = "run" /\ pc[t].k = k /\ enq[t].k = 0
              /\ pc' = [pc EXCEPT ![t].ph = "ran"] /\ UNCHANGED <<q, enq, out, stop>>
QSet(t, o) == /\ pc[t].ph = "ran" /\ out' = [x \in DOMAIN out \cup {pc[t].k} |-> IF x = pc[t].k THEN o ELSE out[x]]
              /\ pc' = [pc EXCEPT ![t].ph = IF pc[t].op = "one" THEN "done" ELSE "go", ![t].k = 0] /\ UNCHANGED <<q, enq, stop>>
QWorkd(t) == /\ pc[t].ph = "done" /\ pc' = [pc EXCEPT ![t] = QIdle] /\ UNCHANGED <<q, enq, out, stop>>
\* the future of a task: "" not ready yet
QFut(k, o) == o = (IF k \in DOMAIN out THEN out[k] ELSE "") /\ UNCHANGED qvars
=============================================================================
