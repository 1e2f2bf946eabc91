--------------------------------- MODULE Spsc ---------------------------------
(* A fixed ring shared by one producer (thread 1) and one consumer (thread 2):   *)
(* each call looks once at the queue and takes effect once afterwards.           *)
EXTENDS Integers, Sequences
VARIABLES q, cap, next, pc
svars == <<q, cap, next, pc>>
SMin(a, b) == IF a < b THEN a ELSE b
SIdle == [ph |-> "idle", op |-> "", n |-> 0, full |-> FALSE, ro |-> FALSE, k |-> 0, v |-> <<>>]
SInit(c) == q = <<>> /\ cap = c /\ next = 1 /\ pc = [t \in {1, 2} |-> SIdle]
SCall(t, op, n, full, ro) ==
  /\ pc[t].ph = "idle" /\ (t = 1) = (op = "write")
  /\ pc' = [pc EXCEPT ![t] = [SIdle EXCEPT !.ph = "called", !.op = op, !.n = n, !.full = full, !.ro = ro]]
  /\ UNCHANGED <<q, cap, next>>
SLook(t) ==
  /\ pc[t].ph = "called"
  /\ LET c == pc[t] room == cap - Len(q) IN
     IF c.op = "write"
     THEN pc' = [pc EXCEPT ![t].ph = "looked", ![t].k = IF c.n <= room THEN c.n ELSE IF c.full THEN 0 ELSE room]
     ELSE pc' = [pc EXCEPT ![t].ph = "looked", ![t].k = SMin(c.n, Len(q)), ![t].v = SubSeq(q, 1, SMin(c.n, Len(q)))]
  /\ UNCHANGED <<q, cap, next>>
SEff(t) ==
  /\ pc[t].ph = "looked" /\ pc' = [pc EXCEPT ![t].ph = "done"]
  /\ LET c == pc[t] IN
     IF c.op = "write" THEN q' = q \o [i \in 1..c.k |-> next + i - 1] /\ next' = next + c.k
     ELSE q' = (IF c.ro THEN q ELSE SubSeq(q, c.k + 1, Len(q))) /\ UNCHANGED next
  /\ UNCHANGED cap
SRet(t, r, v) == /\ pc[t].ph = "done" /\ r = pc[t].k /\ v = pc[t].v
                 /\ pc' = [pc EXCEPT ![t] = SIdle] /\ UNCHANGED <<q, cap, next>>
=============================================================================
