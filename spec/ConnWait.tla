------------------------------- MODULE ConnWait -------------------------------
(* The thread of a connector: it sleeps on a condition while there is no        *)
(* connection, and otherwise polls (with the lock released).  New connections   *)
(* and the stop announce themselves; neither may be slept through, and neither  *)
(* may have to wait for the poll to return.                                     *)
EXTENDS Naturals, FiniteSets
CONSTANTS Users,        \* threads that make a connection each
          Bug           \* "none", "nolock": announce without the lock, "held": poll with the lock held
VARIABLES size, running, lock, sleeping, woken, ctrl, pc, up
vars == <<size, running, lock, sleeping, woken, ctrl, pc, up>>
Procs == Users \cup {"stop", "w"}
Init == /\ size = 0 /\ running = TRUE /\ lock = "" /\ sleeping = FALSE /\ woken = FALSE /\ ctrl = 0
        /\ pc = [p \in Procs |-> IF p = "w" THEN "lock" ELSE "start"] /\ up = {}
At(p, l) == pc[p] = l
To(p, l) == pc' = [pc EXCEPT ![p] = l]
Awake == size > 0 \/ ~running
\* the thread
WLock == At("w", "lock") /\ lock = "" /\ lock' = "w" /\ To("w", "test") /\ UNCHANGED <<size, running, sleeping, woken, ctrl, up>>
WTest == At("w", "test") /\ To("w", IF Awake THEN "work" ELSE "dose") /\ UNCHANGED <<size, running, lock, sleeping, woken, ctrl, up>>
WSleep == /\ At("w", "dose") /\ lock' = "" /\ sleeping' = TRUE /\ woken' = FALSE /\ To("w", "sleep")
          /\ UNCHANGED <<size, running, ctrl, up>>
WWake == At("w", "sleep") /\ woken /\ sleeping' = FALSE /\ To("w", "lock") /\ UNCHANGED <<size, running, lock, woken, ctrl, up>>
WWork == /\ At("w", "work") /\ lock' = (IF Bug = "held" THEN "w" ELSE "")
         /\ To("w", IF running THEN "poll" ELSE "end") /\ UNCHANGED <<size, running, sleeping, woken, ctrl, up>>
\* polling returns for a wake-up command or input of a connection
WPoll == /\ At("w", "poll") /\ (ctrl > 0 \/ up # {})
         /\ ctrl' = 0 /\ lock' = "" /\ To("w", IF running THEN "lock" ELSE "end") /\ UNCHANGED <<size, running, sleeping, woken, up>>
\* a user: count the connection, announce it, add it to the poll, send a wake-up
UNew(u) == At(u, "start") /\ u # "stop" /\ u # "w" /\ size' = size + 1 /\ To(u, IF Bug = "nolock" THEN "notify" ELSE "lock")
           /\ UNCHANGED <<running, lock, sleeping, woken, ctrl, up>>
SStop == At("stop", "start") /\ running' = FALSE /\ To("stop", IF Bug = "nolock" THEN "notify" ELSE "lock")
         /\ UNCHANGED <<size, lock, sleeping, woken, ctrl, up>>
PLock(p) == p # "w" /\ At(p, "lock") /\ lock = "" /\ lock' = p /\ To(p, "notify") /\ UNCHANGED <<size, running, sleeping, woken, ctrl, up>>
Notify(p) == /\ At(p, "notify") /\ woken' = (woken \/ sleeping) /\ lock' = (IF lock = p THEN "" ELSE lock) /\ To(p, "ctrl")
             /\ UNCHANGED <<size, running, sleeping, ctrl, up>>
Ctrl(p) == /\ At(p, "ctrl") /\ ctrl' = ctrl + 1 /\ up' = (IF p = "stop" THEN up ELSE up \cup {p}) /\ To(p, "done")
           /\ UNCHANGED <<size, running, lock, sleeping, woken>>
Next == WLock \/ WTest \/ WSleep \/ WWake \/ WWork \/ WPoll \/ SStop
        \/ \E p \in Procs : UNew(p) \/ PLock(p) \/ Notify(p) \/ Ctrl(p)
Spec == Init /\ [][Next]_vars
\* at rest (nothing can happen without the peer), every connection is polled and a stop has ended the thread
Idle == \A p \in Procs \ {"w"} : pc[p] \in {"start", "done"}
NotMissed == /\ (Idle /\ At("w", "sleep") /\ ~woken) => size = 0 /\ running
             /\ (\E p \in Procs \ {"w"} : At(p, "lock")) /\ lock = "w" => ~At("w", "poll")
=============================================================================
