----------------------------- MODULE SharedList ----------------------------
(* The list of coroutines that await a shared result: each enters itself at  *)
(* the head, the producer takes the whole list, turns it round and resumes   *)
(* every one; an entry lives in its coroutine and is gone when that goes on. *)
EXTENDS Integers, Sequences
CONSTANTS Awaiters, Bug    \* "none" | "stale" | "nextlate" | "noready" | "statuslate"
VARIABLES head, next, pc, seen, ppc, cur, prev, status, gone, resumed, uaf
vars == <<head, next, pc, seen, ppc, cur, prev, status, gone, resumed, uaf>>
\* head: 0 no one, -1 ready, or an awaiter
Init == /\ head = 0 /\ next = [a \in Awaiters |-> 0] /\ pc = [a \in Awaiters |-> "look"] /\ seen = [a \in Awaiters |-> 0]
        /\ ppc = "work" /\ cur = 0 /\ prev = 0 /\ status = "idle" /\ gone = {} /\ resumed = [a \in Awaiters |-> 0] /\ uaf = FALSE
Look(a) == /\ pc[a] = "look"
           /\ IF head = -1 THEN pc' = [pc EXCEPT ![a] = "on"] /\ UNCHANGED <<seen, next>>
              ELSE /\ pc' = [pc EXCEPT ![a] = "swap"] /\ seen' = [seen EXCEPT ![a] = head]
                   /\ next' = [next EXCEPT ![a] = head]
           /\ UNCHANGED <<head, ppc, cur, prev, status, gone, resumed, uaf>>
Swap(a) == /\ pc[a] = "swap"
           /\ IF head = seen[a] THEN head' = a /\ pc' = [pc EXCEPT ![a] = "asleep"] /\ UNCHANGED seen
              ELSE /\ UNCHANGED head
                   /\ IF Bug = "stale" THEN seen' = [seen EXCEPT ![a] = head]   \* and keeps the old next
                                             /\ pc' = [pc EXCEPT ![a] = IF head = -1 THEN "on" ELSE "swap"]
                      ELSE pc' = [pc EXCEPT ![a] = "look"] /\ UNCHANGED seen
           /\ UNCHANGED <<next, ppc, cur, prev, status, gone, resumed, uaf>>
\* goes on: reads the outcome; its entry is gone
On(a) == /\ pc[a] = "on" /\ pc' = [pc EXCEPT ![a] = IF status = "ready" THEN "end" ELSE "bad"] /\ gone' = gone \cup {a}
         /\ UNCHANGED <<head, next, seen, ppc, cur, prev, status, resumed, uaf>>
\* the producer
Store == /\ ppc = "work" /\ ppc' = "take" /\ status' = IF Bug = "statuslate" THEN status ELSE "ready"
         /\ UNCHANGED <<head, next, pc, seen, cur, prev, gone, resumed, uaf>>
Take == /\ ppc = "take" /\ cur' = head /\ head' = (IF Bug = "noready" THEN 0 ELSE -1) /\ ppc' = "turn"
        /\ UNCHANGED <<next, pc, seen, prev, status, gone, resumed, uaf>>
Turn == /\ ppc = "turn"
        /\ IF cur = 0 THEN ppc' = "walk" /\ cur' = prev /\ UNCHANGED <<next, prev>>
           ELSE next' = [next EXCEPT ![cur] = prev] /\ prev' = cur /\ cur' = next[cur] /\ UNCHANGED ppc
        /\ UNCHANGED <<head, pc, seen, status, gone, resumed, uaf>>
Walk == /\ ppc = "walk"
        /\ IF cur = 0 THEN ppc' = "end" /\ status' = "ready" /\ UNCHANGED <<cur, pc, resumed, uaf>>
           ELSE /\ pc' = [pc EXCEPT ![cur] = "on"] /\ resumed' = [resumed EXCEPT ![cur] = @ + 1]
                /\ UNCHANGED status
                /\ IF Bug = "nextlate" THEN ppc' = "step" /\ UNCHANGED <<cur, uaf>>
                   ELSE uaf' = (uaf \/ cur \in gone) /\ cur' = next[cur] /\ UNCHANGED ppc
        /\ UNCHANGED <<head, next, seen, prev, gone>>
Step == /\ ppc = "step" /\ uaf' = (uaf \/ cur \in gone) /\ cur' = next[cur] /\ ppc' = "walk"
        /\ UNCHANGED <<head, next, pc, seen, prev, status, gone, resumed>>
Next == Store \/ Take \/ Turn \/ Walk \/ Step \/ \E a \in Awaiters : Look(a) \/ Swap(a) \/ On(a)
Spec == Init /\ [][Next]_vars /\ WF_vars(Store \/ Take \/ Turn \/ Walk \/ Step)
             /\ \A a \in Awaiters : WF_vars(Look(a)) /\ WF_vars(Swap(a)) /\ WF_vars(On(a))
SameForAll == \A a \in Awaiters : pc[a] # "bad" /\ resumed[a] <= 1
NotUsedAfterFree == ~uaf
AllGoOn == \A a \in Awaiters : <>(pc[a] = "end")
=============================================================================
