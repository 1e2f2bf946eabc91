------------------------------ MODULE TaskObjMC ------------------------------
EXTENDS TaskObj, FiniteSets
CONSTANTS N, Plain
VARIABLES nx, ran, died, over
vars == <<ovars, nx, ran, died, over>>
Init == OInit /\ nx = 1 /\ ran = <<>> /\ died = <<>> /\ over = FALSE
Ops == {"put", "move", "through", "swap", "clear", "run", "holds", "over"}
Next == \/ \E op \in Ops, a \in Objects, b \in Objects :
             /\ ~over /\ (op = "put" => nx <= N) /\ (op \notin {"move", "swap"} => b = a)
             /\ (op = "swap" => a # b) /\ (op = "over" => a = 1)
             /\ OCall(op, a, b, nx, Plain)
             /\ nx' = (IF op = "put" THEN nx + 1 ELSE nx) /\ over' = (op = "over") /\ UNCHANGED <<ran, died>>
        \/ \E k \in 1..N : ODo("run", k) /\ ran' = Append(ran, k) /\ UNCHANGED <<nx, died, over>>
        \/ \E k \in 1..N : ODo("die", k) /\ died' = Append(died, k) /\ UNCHANGED <<nx, ran, over>>
        \/ ORet(res) /\ res # "none" /\ UNCHANGED <<nx, ran, died, over>>
Once(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Held == {slot[o] : o \in Objects} \ {0}
OneHolder == \A o, p \in Objects : slot[o] # 0 /\ slot[o] = slot[p] => o = p
AtMostOnce == Once(ran) /\ Once(died)
\* at the end everything has been released, and nothing runs after it was
Released == over /\ due = <<>> => {died[i] : i \in 1..Len(died)} = (1..(nx - 1)) \ Plain
NotAfter == Held \cap ({died[i] : i \in 1..Len(died)} \cup {ran[i] : i \in 1..Len(ran)}) = {}
=============================================================================
