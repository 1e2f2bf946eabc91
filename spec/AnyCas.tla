------------------------------- MODULE AnyCas -------------------------------
(* Waiting for the first of several results: the waiter leaves one context   *)
(* with every result in turn and then goes to sleep; producers that find it  *)
(* enter their result in the context and wake the waiter if it sleeps.       *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Bug      \* "none" | "early" | "sleep" | "norewind" | "blind"
VARIABLES st, ppc, ctx, cpc, i, resumed, index, over
vars == <<st, ppc, ctx, cpc, i, resumed, index, over>>
R == 1..N
Init == /\ st = [r \in R |-> "idle"] /\ ppc = [r \in R |-> "work"] /\ ctx = 0 /\ cpc = "reg" /\ i = 1
        /\ resumed = 0 /\ index = 0 /\ over = FALSE
\* ctx: 0 still leaving, -1 asleep, r the result that was first
Finish(r) == /\ ppc[r] = "work" /\ st' = [st EXCEPT ![r] = "pdone"]
             /\ ppc' = [ppc EXCEPT ![r] = IF st[r] = "set" THEN "look" ELSE "end"]
             /\ UNCHANGED <<ctx, cpc, i, resumed, index, over>>
Look(r) == /\ ppc[r] = "look"
           /\ ppc' = [ppc EXCEPT ![r] = CASE ctx > 0 -> "end" [] ctx = -1 -> "wake" [] OTHER -> IF Bug = "early" THEN "wakeany" ELSE "enter"]
           /\ UNCHANGED <<st, ctx, cpc, i, resumed, index, over>>
Enter(r) == /\ ppc[r] = "enter"
            /\ IF ctx = 0 THEN ctx' = r /\ ppc' = [ppc EXCEPT ![r] = "end"]
               ELSE ppc' = [ppc EXCEPT ![r] = "look"] /\ UNCHANGED ctx
            /\ UNCHANGED <<st, cpc, i, resumed, index, over>>
Wake(r) == /\ ppc[r] \in {"wake", "wakeany"}
           /\ IF ctx = -1 \/ ppc[r] = "wakeany" \/ Bug = "blind"
              THEN ctx' = r /\ resumed' = resumed + 1 /\ over' = (over \/ cpc # "asleep") /\ cpc' = "resumed"
              ELSE UNCHANGED <<ctx, resumed, over, cpc>>
           /\ ppc' = [ppc EXCEPT ![r] = "end"] /\ UNCHANGED <<st, i, index>>
\* the waiter
Check == /\ cpc = "reg" /\ IF i > N THEN cpc' = "sleep" ELSE IF ctx > 0 THEN cpc' = "resumed" ELSE cpc' = "leave"
         /\ UNCHANGED <<st, ppc, ctx, i, resumed, index, over>>
Leave == /\ cpc = "leave"
         /\ IF st[i] = "pdone" THEN cpc' = "inline" /\ UNCHANGED <<st, i>>
            ELSE st' = [st EXCEPT ![i] = "set"] /\ i' = i + 1 /\ cpc' = "reg"
         /\ UNCHANGED <<ppc, ctx, resumed, index, over>>
Inline == /\ cpc = "inline" /\ ctx' = (IF ctx = 0 THEN i ELSE ctx) /\ cpc' = "resumed"
          /\ UNCHANGED <<st, ppc, i, resumed, index, over>>
Sleep == /\ cpc = "sleep"
         /\ IF ctx = 0 THEN ctx' = -1 /\ cpc' = "asleep"
            ELSE UNCHANGED ctx /\ cpc' = (IF Bug = "sleep" THEN "asleep" ELSE "resumed")
         /\ UNCHANGED <<st, ppc, i, resumed, index, over>>
\* goes on: takes back what it left, and says which result was first
Rewind == /\ cpc = "resumed" /\ index' = ctx /\ cpc' = "end"
          /\ st' = [r \in R |-> IF st[r] = "set" /\ Bug # "norewind" THEN "idle" ELSE st[r]]
          /\ UNCHANGED <<ppc, ctx, i, resumed, over>>
Producer(r) == Finish(r) \/ Look(r) \/ Enter(r) \/ Wake(r)
Waiter == Check \/ Leave \/ Inline \/ Sleep \/ Rewind
Next == (\E r \in R : Producer(r)) \/ Waiter
Spec == Init /\ [][Next]_vars /\ WF_vars(Waiter) /\ \A r \in R : WF_vars(Look(r) \/ Enter(r) \/ Wake(r))
AtMostOnce == resumed <= 1 /\ ~over
Named == cpc = "end" => index \in R /\ st[index] = "pdone"
Usable == cpc = "end" => \A r \in R : st[r] # "set"
\* when a result is there and nobody is about to tell, the waiter is not asleep
Told == (\A r \in R : ppc[r] \in {"work", "end"}) /\ (\E r \in R : st[r] = "pdone") => cpc # "asleep"
Goes == (\E r \in R : st[r] = "pdone") ~> cpc = "end"
=============================================================================
