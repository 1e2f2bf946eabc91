------------------------------ MODULE ExecutorMC ------------------------------
(* The executor specification as a closed system: one executor of each kind,   *)
(* clients that submit, tasks that run, shutdowns.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KIND, N, NT
VARIABLES kindOf, task, st, where, by, pred, late, called, open, down, after, clients, loopers, owned
Aspects == {"once", "order", "place", "shutdown"}
INSTANCE Executor
vars == evars
Threads == 1..3      \* 1 a client, 2 and 3 belong to executors
T == 1..NT
Init == EInit([x \in {0} |-> [kind |-> KIND, n |-> N, lp |-> 1]],
              [k \in T |-> [x |-> 0, m |-> IF k = 1 THEN "submit" ELSE "post", thr |-> k = 1]])
Next == \/ clients = {} /\ Client(1)
        \/ KIND = "manual" /\ loopers = <<>> /\ Looper(2, 0)
        \/ \E t \in {1, 2} : (t \in clients \/ \E k \in T : where[k] = t /\ st[k] = "run") /\
             \/ \E k \in T : Submit(t, 0, <<k>>)
             \/ \E k, j \in T : k # j /\ Submit(t, 0, <<k, j>>)
        \/ \E k \in T : Accept(by[k], <<k>>) \/ Refuse(by[k], <<k>>)
        \/ \E k, j \in T : k # j /\ (Accept(by[k], <<k, j>>) \/ Refuse(by[k], <<k, j>>))
        \/ \E k \in T, t \in Threads : Run(k, t) \/ Finish(k, t)
        \/ open[0] < 2 /\ Cardinality(called) < 2 /\ Shutdown(0)
        \/ ShutdownDone(0, TRUE)
Spec == Init /\ [][Next]_vars
Bound == open[0] <= 1
\* ---- what the obligations add up to --------------------------------------
OnceOnly   == [][\A k \in T : st[k] = "fin" => st'[k] = "fin"]_vars
NotRevived == [][\A k \in T : st[k] = "rej" => st'[k] = "rej"]_vars
Capacity   == KIND = "pool" => Cardinality(Running(0)) <= N
OneAtATime == KIND \in {"worker", "manual"} => Cardinality(Running(0)) <= 1
OneThread  == KIND = "worker" => Cardinality(owned[0]) <= 1
NeverOnClient == KIND \in {"thread", "worker", "pool", "manual"} => 1 \notin owned[0]
QuietWhenDown == 0 \in down /\ KIND \in {"thread", "worker", "pool"} => Running(0) = {}
LateNeverRuns == \A k \in late : st[k] \notin {"run", "fin"}
Order == KIND \in {"worker", "manual"} => \A k \in T : Started(k) => \A j \in pred[k] : Started(j)
InlineSync == [][KIND = "inline" => \A k \in T : (st[k] = "called" /\ st'[k] = "acc") => 0 \in called]_vars
=============================================================================
