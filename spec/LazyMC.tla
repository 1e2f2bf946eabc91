-------------------------------- MODULE LazyMC --------------------------------
EXTENDS Lazy, TLC
VARIABLES runs, hand
vars == <<lvars, runs, hand>>
D == <<[thr |-> FALSE, nest |-> 0], [thr |-> TRUE, nest |-> 1]>>
I == {1, 2}
O(k) == IF D[k].thr THEN "exc" ELSE "val"
Init == LInit(D) /\ runs = [k \in I |-> 0] /\ hand = [k \in I |-> 0]
OpsL == {"make", "drop", "move", "status", "resolve", "await", "run"}
Next == \/ \E o \in OpsL, k \in I : (o = "make" => hand[k] < 2) /\ LCall(o, k) /\ UNCHANGED <<runs, hand>>
        \/ \E k \in I : LStart(k) /\ UNCHANGED hand
             /\ runs' = IF stack = <<>> THEN [runs EXCEPT ![k] = @ + 1] ELSE runs
        \/ \E k \in I : LFin(k) /\ UNCHANGED <<runs, hand>>
        \/ \E o \in OpsL, k \in I, r \in {"ok", "empty", "idle", "value", "exception", "exc", "val"} :
             LRet(o, k, r, O(k)) /\ UNCHANGED runs
             /\ hand' = IF o = "make" THEN [hand EXCEPT ![k] = @ + 1] ELSE hand
Spec == Init /\ [][Next]_vars
Bnd == \A k \in I : hand[k] <= 2
AtMostOncePerMake == \A k \in I : runs[k] <= hand[k]
RunsBeforeOutcome == [][\A k \in I : ls[k] = "fresh" /\ ls'[k] = "done" => cur.body = "done"]_vars
=============================================================================
