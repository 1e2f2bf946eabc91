------------------------------ MODULE KernelMC ------------------------------
(* Executor 1 runs tasks in the caller, 2 has one thread of its own; task 2    *)
(* is posted by task 1, and one may come late.                               *)
EXTENDS Kernel
K == 1..3
X == 0..2
W == {0, 2}
At == (1 :> 2) @@ (2 :> 2) @@ (3 :> 1)
VARIABLES took               \* tasks taken on, and when
mvars == <<kvars, took>>
MInit == KInit(K) /\ took = {}
MNext ==
  \/ \E k \in K : Post(k) /\ UNCHANGED took
  \/ \E k \in K : Take(k, {At[k]}) /\ took' = took \cup {<<k, phase>>}
  \/ \E k \in K, ok \in BOOLEAN : Posted(k, ok) /\ UNCHANGED took
  \/ \E k \in K : (At[k] = 2 => 2 \in alive) /\ Run(k, At[k] \in W) /\ UNCHANGED took
  \/ \E k \in K : Ran(k) /\ UNCHANGED took
  \/ ThreadOn(2) /\ UNCHANGED took
  \/ (\A k \in K : At[k] = 2 => st[k].run # "on") /\ ThreadOff(2) /\ UNCHANGED took
  \/ End /\ UNCHANGED took
  \/ Ended(X, W, At) /\ UNCHANGED took
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(\E k \in K : Ran(k) /\ UNCHANGED took) /\ WF_mvars((\A k \in K : At[k] = 2 => st[k].run # "on") /\ ThreadOff(2) /\ UNCHANGED took)
           /\ SF_mvars(Ended(X, W, At) /\ UNCHANGED took)
GoneIsGone == phase = "gone" => alive = {} /\ \A k \in K : At[k] \in W => st[k].run # "on"
AllClosed == phase = "gone" => X \subseteq closed
NothingTaken == \A p \in took : p[2] # "gone"
Ends == phase = "ending" ~> phase = "gone"
=============================================================================
