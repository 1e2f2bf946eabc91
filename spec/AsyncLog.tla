------------------------------ MODULE AsyncLog ------------------------------
(* How the asynchronous logger does it: writers fill a buffer under a lock and   *)
(* put full ones in a list; its thread takes list and buffer away, gives fresh   *)
(* ones back, and writes what it took to the file.                               *)
EXTENDS Integers, Sequences
CONSTANTS Writers, Per, Cap,    \* records per writer, records per buffer
          Bug                   \* "none", "nodrain", "fullonly", "nolock", "swapfirst"
VARIABLES cur, next, full,      \* buffers: sequences; next = 1 if there is a spare one
          pc, i,                \* writers: how many records appended; logger's place
          running, cv, took, file, stopped, must, spare
vars == <<cur, next, full, pc, i, running, cv, took, file, stopped, must, spare>>
Cat(ss) == LET RECURSIVE F(_) F(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o F(Tail(s)) IN F(ss)
Init == /\ cur = <<>> /\ next = TRUE /\ full = <<>> /\ pc = "top" /\ i = [w \in Writers |-> 0]
        /\ running = TRUE /\ cv = FALSE /\ took = <<>> /\ file = <<>> /\ stopped = "no" /\ must = {} /\ spare = 2
App(w) == /\ i[w] < Per /\ i' = [i EXCEPT ![w] = @ + 1]
          /\ LET r == <<w, i[w] + 1>> IN
             IF Len(cur) < Cap THEN cur' = Append(cur, r) /\ UNCHANGED <<next, full, cv>>
             ELSE full' = Append(full, cur) /\ cur' = <<r>> /\ next' = FALSE /\ cv' = TRUE
          /\ UNCHANGED <<pc, running, took, file, stopped, must, spare>>
Stop == /\ stopped = "no" /\ stopped' = "asked" /\ running' = FALSE
        /\ must' = {<<w, k>> : w \in Writers, k \in 1..Per} \cap UNION {{<<w, k>> : k \in 1..i[w]} : w \in Writers}
        /\ cv' = TRUE /\ UNCHANGED <<cur, next, full, pc, i, took, file, spare>>
Joined == stopped = "asked" /\ pc = "end" /\ stopped' = "done" /\ UNCHANGED <<cur, next, full, pc, i, running, cv, took, file, must, spare>>
\* the logger's thread; in the bug variants it looks at the flag outside of the lock and leaves
Top == /\ pc = "top"
       /\ IF Bug = "nodrain" /\ ~running THEN pc' = "end" /\ UNCHANGED <<cur, next, full, took, cv, spare>>
          ELSE pc' = "lock" /\ UNCHANGED <<cur, next, full, took, cv, spare>>
       /\ UNCHANGED <<i, running, file, stopped, must>>
Lock == /\ pc = "lock"
        /\ pc' = IF full = <<>> /\ (running \/ Bug = "nodrain") THEN "wait" ELSE "take"
        /\ cv' = IF pc' = "wait" THEN FALSE ELSE cv
        /\ UNCHANGED <<cur, next, full, i, running, took, file, stopped, must, spare>>
Wake == pc = "wait" /\ pc' = "take" /\ UNCHANGED <<cur, next, full, i, running, cv, took, file, stopped, must, spare>>   \* notified or timed out
Take == /\ pc = "take"
        /\ LET last == ~running IN
           /\ pc' = IF last /\ Bug # "nodrain" THEN "last" ELSE "write"
           /\ took' = IF Bug = "fullonly" /\ full # <<>> THEN full
                      ELSE IF Bug = "swapfirst" THEN <<cur>> \o full ELSE Append(full, cur)
           /\ full' = <<>>
           /\ cur' = IF Bug = "fullonly" /\ full # <<>> THEN cur ELSE <<>>
        /\ next' = TRUE
        /\ UNCHANGED <<i, running, cv, file, stopped, must, spare>>
Write == /\ pc \in {"write", "last"} /\ file' = file \o Cat(took) /\ took' = <<>>
         /\ pc' = IF pc = "last" THEN "end" ELSE "top"
         /\ UNCHANGED <<cur, next, full, i, running, cv, stopped, must, spare>>
Next == (\E w \in Writers : App(w)) \/ Stop \/ Joined \/ Top \/ Lock \/ Wake \/ Take \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Joined \/ Top \/ Lock \/ Wake \/ Take \/ Write)
Has(r) == \E k \in 1..Len(file) : file[k] = r
Kept == stopped = "done" => \A r \in must : Has(r)
Once == \A j, k \in 1..Len(file) : file[j] = file[k] => j = k
Ordered == \A j, k \in 1..Len(file) : j < k /\ file[j][1] = file[k][1] => file[j][2] < file[k][2]
Written == \A w \in Writers, k \in 1..Per : (i[w] >= k /\ stopped = "no") ~> (Has(<<w, k>>) \/ stopped # "no")
Stops == stopped = "asked" ~> stopped = "done"
=============================================================================
