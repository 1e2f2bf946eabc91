------------------------------- MODULE Kernel -------------------------------
(* What the engine gives out and how it ends.  Executors (the four standard   *)
(* ones and those made on request) and the timer queue take tasks until the   *)
(* engine ends.  Its end closes each of them, waits for their threads, and    *)
(* returns: after that nothing of the engine runs and nothing is taken on.    *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Bug
VARIABLES phase,              \* up, ending, gone
          closed,             \* executors that are closed (0: the timer queue)
          st,                 \* task -> how far its hand-over and its run are
          alive               \* threads started and not ended
kvars == <<phase, closed, st, alive>>
KInit(K) == phase = "up" /\ closed = {} /\ st = [k \in K |-> [call |-> "no", run |-> "no"]] /\ alive = {}
\* a task is handed over (through the timer queue when tm)
Post(k) == st[k].call = "no" /\ st' = [st EXCEPT ![k].call = "yes"] /\ UNCHANGED <<phase, closed, alive>>
\* it is taken on while the executor is open
Take(k, X) == /\ st[k].call = "yes" /\ (phase # "gone" \/ X \cap closed = {})
              /\ st' = [st EXCEPT ![k].call = "taken"] /\ UNCHANGED <<phase, closed, alive>>
\* and refused only when the engine ends
Posted(k, ok) ==
  /\ IF ok THEN st[k].call = "taken" ELSE st[k].call = "yes" /\ phase # "up"
  /\ st' = [st EXCEPT ![k].call = IF ok THEN "in" ELSE "refused"]
  /\ UNCHANGED <<phase, closed, alive>>
\* tasks on threads of the engine (own) do not begin once it is gone
Run(k, own) == /\ st[k].run = "no" /\ st[k].call \in {"taken", "in"}
               /\ own => phase # "gone"
               /\ st' = [st EXCEPT ![k].run = "on"] /\ UNCHANGED <<phase, closed, alive>>
Ran(k) == st[k].run = "on" /\ st' = [st EXCEPT ![k].run = "off"] /\ UNCHANGED <<phase, closed, alive>>
ThreadOn(t) == phase # "gone" /\ t \notin alive /\ alive' = alive \cup {t} /\ UNCHANGED <<phase, closed, st>>
ThreadOff(t) == phase # "gone" /\ t \in alive /\ alive' = alive \ {t} /\ UNCHANGED <<phase, closed, st>>
End == phase = "up" /\ phase' = "ending" /\ UNCHANGED <<closed, st, alive>>
\* X: all executors; W: those whose threads are the engine's, x: task -> executor
Ended(X, W, x) == /\ phase = "ending"
                  /\ (\A k \in DOMAIN st : st[k].run = "on" => x[k] \notin W) \/ Bug = "nowait"
                  /\ alive = {} \/ Bug = "nowait"
                  /\ phase' = "gone" /\ closed' = (IF Bug = "forget" THEN {c \in X : c < 2} ELSE X) /\ UNCHANGED <<st, alive>>
=============================================================================
