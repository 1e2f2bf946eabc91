------------------------------ MODULE CombineMC ------------------------------
EXTENDS Combine, TLC
CONSTANTS NP
VARIABLES last, done
vars == <<cvars, last, done>>
V(p) == IF p = 1 THEN [s |-> "exc1", st |-> "exception"] ELSE [s |-> "val", st |-> "value"]
Init == CInit([p \in 1..NP |-> V(p)]) /\ last = {} /\ done = FALSE
Ans == {"ok", "idle", "value", "exception", "exc1", "val"}
Prod == \E p \in 1..NP : ProdCall(p) \/ Publish(p) \/ ProdRet(p)
SNext == \/ Prod /\ UNCHANGED <<last, done>>
         \/ \E k \in 1..2, o \in {"status", "wait_for", "get", "await", "drop"} : SCall(k, o, 1) /\ UNCHANGED <<last, done>>
         \/ \E k \in 1..2, r \in Ans, d \in 0..1 :
              /\ SRet(k, r, d) /\ UNCHANGED done
              /\ last' = IF r \in {"exc1", "val"} THEN last \cup {r} ELSE last
GNext == \/ Prod /\ UNCHANGED <<last, done>>
         \/ WorkerIs(7) /\ wth = -1 /\ UNCHANGED <<last, done>>
         \/ \E o \in {"all", "any"} : ~done /\ grp = None /\ GCall(o, NP - Cardinality(taken)) /\ UNCHANGED <<last, done>>
         \/ \E o \in {"all", "any"}, p \in 1..NP : GRet(o, NP - Cardinality(taken), p, wth, "worker") /\ done' = TRUE
              /\ last' = {<<o, p>>}
         \/ \E p \in 1..NP, r \in {"exc1", "val"} : done /\ GGot(p, "any", r) /\ UNCHANGED <<last, done>>
SSpec == Init /\ [][SNext]_vars
GSpec == Init /\ [][GNext]_vars
SameForAll == Cardinality(last) <= 1
AllMeansAll == done /\ (\E p \in 1..NP : <<"all", p>> \in last) => \A p \in 1..NP : Pub(p)
AnyMeansOne == \A p \in 1..NP : <<"any", p>> \in last => Pub(p)
TakenOnce == [][\A p \in taken : p \in taken']_vars
OutcomeFixed == [][outs' = outs]_vars
=============================================================================
