------------------------------- MODULE TaskQMC -------------------------------
EXTENDS TaskQ, FiniteSets
CONSTANT N
VARIABLES nx, order, ran
vars == <<qvars, nx, order, ran>>
Init == QInit /\ nx = 1 /\ order = <<>> /\ ran = <<>>
Keep == UNCHANGED <<nx, order, ran>>
Next == \/ \E t \in Threads : ~(stop /\ pc[t].ph # "run") /\ nx <= N /\ QEnq(t, nx) /\ nx' = nx + 1 /\ UNCHANGED <<order, ran>>
        \/ \E t \in Threads : QEnqIn(t) /\ order' = (IF stop THEN order ELSE Append(order, enq[t].k)) /\ UNCHANGED <<nx, ran>>
        \/ \E t \in Threads, ok \in BOOLEAN : QEnqd(t, enq[t].k, ok) /\ enq[t].k # 0 /\ Keep
        \/ \E t \in Threads, op \in {"one", "all"} : ~stop /\ (enq[t].k = 0) /\ QWork(t, op) /\ Keep
        \/ ~stop /\ (\A t \in Threads : pc[t].op = "idle" /\ enq[t].k = 0) /\ QWork(1, "end") /\ Keep
        \/ \E t \in Threads : QTake(t) /\ ran' = Append(ran, Head(q)) /\ UNCHANGED <<nx, order>>
        \/ \E t \in Threads : (QNone(t) \/ QRun(t, pc[t].k) \/ QRan(t, pc[t].k) \/ QSet(t, "v") \/ QWorkd(t)) /\ Keep
Fifo == ran = SubSeq(order, 1, Len(ran))
AllRun == stop /\ (\A t \in Threads : pc[t].op = "idle") => ran = order /\ \A i \in 1..Len(order) : order[i] \in DOMAIN out
=============================================================================
