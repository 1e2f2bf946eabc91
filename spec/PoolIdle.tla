------------------------------ MODULE PoolIdle ------------------------------
(* One worker of a thread pool: submitters put tasks into its public queue,  *)
(* start its thread when it has none and wake it when it sleeps; it sleeps   *)
(* on a semaphore, leaves when the idle time is over, and is shut down.      *)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Nested,
          Bug    \* "none" | "late" | "noflag" | "norelease" | "apart" | "swap"
VARIABLES pc, wpc, pub, priv, sem, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice
vars == <<pc, wpc, pub, priv, sem, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
Init == /\ pc = [c \in Callers |-> "enter"] /\ wpc = "off" /\ pub = 0 /\ priv = 0 /\ sem = 0 /\ flag = FALSE
        /\ idle = TRUE /\ abort = FALSE /\ aabort = FALSE /\ thread = FALSE /\ ran = 0 /\ accepted = 0 /\ refused = 0
        /\ dropped = 0 /\ sd = "no" /\ left = Nested /\ twice = FALSE
\* a submitter; all of it up to the release of the lock is one step
Enter(c) ==
  /\ pc[c] = "enter"
  /\ IF abort THEN /\ refused' = refused + 1 /\ pc' = [pc EXCEPT ![c] = "done"]
                   /\ UNCHANGED <<pub, flag, idle, accepted, thread, wpc, twice>>
     ELSE /\ accepted' = accepted + 1 /\ flag' = (flag \/ Bug # "noflag") /\ pub' = pub + 1
          /\ IF idle
             THEN \* starts a thread and waits for the old one to leave
                  /\ idle' = FALSE
                  /\ IF thread /\ wpc \notin {"off", "leave"} THEN twice' = TRUE ELSE UNCHANGED twice
                  /\ thread' = TRUE
                  /\ IF wpc \in {"off", "leave"} THEN wpc' = "look" ELSE UNCHANGED wpc
                  /\ pc' = [pc EXCEPT ![c] = "done"]
             ELSE /\ pc' = [pc EXCEPT ![c] = IF pub = 0 /\ Bug # "norelease" THEN "release" ELSE "done"]
                  /\ UNCHANGED <<idle, thread, wpc, twice>>
          /\ UNCHANGED refused
  /\ UNCHANGED <<priv, sem, abort, aabort, ran, dropped, sd, left>>
Release(c) == /\ pc[c] = "release" /\ sem' = sem + 1 /\ pc' = [pc EXCEPT ![c] = "done"]
              /\ UNCHANGED <<wpc, pub, priv, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
\* the worker
Take == \* with the lock held and something to do
  IF abort THEN /\ flag' = FALSE /\ idle' = TRUE /\ wpc' = "leave" /\ UNCHANGED <<pub, priv>>
  ELSE /\ flag' = FALSE /\ priv' = pub /\ pub' = 0 /\ wpc' = "run" /\ UNCHANGED idle
Look == /\ wpc = "look"
        /\ IF pub > 0 \/ abort THEN Take ELSE wpc' = "sleep" /\ UNCHANGED <<pub, priv, flag, idle>>
        /\ UNCHANGED <<pc, sem, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
Woken == /\ wpc = "sleep" /\ sem > 0 /\ sem' = sem - 1 /\ wpc' = IF flag THEN "woken" ELSE "sleep"
         /\ UNCHANGED <<pc, pub, priv, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
Check == /\ wpc = "woken"
         /\ IF pub = 0 /\ ~abort THEN wpc' = "sleep" /\ UNCHANGED <<pub, priv, flag, idle>>
            ELSE IF abort THEN idle' = TRUE /\ wpc' = "leave" /\ UNCHANGED <<pub, priv, flag>>
            ELSE Take
         /\ UNCHANGED <<pc, sem, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
TimeOut == /\ wpc = "sleep" /\ wpc' = "late"
           /\ UNCHANGED <<pc, pub, priv, sem, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
Late == /\ wpc = "late"
        /\ IF pub = 0 \/ abort \/ Bug = "late" THEN idle' = TRUE /\ wpc' = "leave" /\ UNCHANGED <<pub, priv, flag>>
           ELSE Take
        /\ UNCHANGED <<pc, sem, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
Run == /\ wpc = "run" /\ priv > 0
       /\ IF aabort THEN idle' = TRUE /\ wpc' = "leave" /\ UNCHANGED <<priv, ran>>
          ELSE priv' = priv - 1 /\ ran' = ran + 1 /\ UNCHANGED <<idle, wpc>>
       /\ UNCHANGED <<pc, pub, sem, flag, abort, aabort, thread, accepted, refused, dropped, sd, left, twice>>
\* a running task submits to its own worker
Local == /\ wpc = "run" /\ left > 0 /\ left' = left - 1
         /\ IF aabort THEN refused' = refused + 1 /\ UNCHANGED <<priv, accepted>>
            ELSE priv' = priv + 1 /\ accepted' = accepted + 1 /\ UNCHANGED refused
         /\ UNCHANGED <<pc, wpc, pub, sem, flag, idle, abort, aabort, thread, ran, dropped, sd, twice>>
Drained == /\ wpc = "run" /\ priv = 0 /\ wpc' = "look"
           /\ UNCHANGED <<pc, pub, priv, sem, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
Leave == /\ wpc = "leave" /\ wpc' = "off"
         /\ UNCHANGED <<pc, pub, priv, sem, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, sd, left, twice>>
\* shutdown
Sd1 == /\ sd = "no"
       /\ IF Bug = "apart" THEN aabort' = TRUE /\ UNCHANGED abort /\ sd' = "apart"
          ELSE aabort' = TRUE /\ abort' = TRUE /\ sd' = "flag"
       /\ UNCHANGED <<pc, wpc, pub, priv, sem, flag, idle, thread, ran, accepted, refused, dropped, left, twice>>
SdApart == /\ sd = "apart" /\ abort' = TRUE /\ sd' = "flag"
           /\ UNCHANGED <<pc, wpc, pub, priv, sem, flag, idle, aabort, thread, ran, accepted, refused, dropped, left, twice>>
Sd2 == /\ sd = "flag" /\ flag' = TRUE /\ sd' = "wake"
       /\ UNCHANGED <<pc, wpc, pub, priv, sem, idle, abort, aabort, thread, ran, accepted, refused, dropped, left, twice>>
Sd3 == /\ sd = "wake" /\ sem' = sem + 1 /\ sd' = "join"
       /\ UNCHANGED <<pc, wpc, pub, priv, flag, idle, abort, aabort, thread, ran, accepted, refused, dropped, left, twice>>
Sd4 == /\ sd = "join" /\ wpc = "off" /\ sd' = "done" /\ thread' = FALSE
       /\ dropped' = pub + priv /\ pub' = 0 /\ priv' = 0
       /\ UNCHANGED <<pc, wpc, sem, flag, idle, abort, aabort, ran, accepted, refused, left, twice>>
Next == \/ \E c \in Callers : Enter(c) \/ Release(c)
        \/ Look \/ Woken \/ Check \/ TimeOut \/ Late \/ Run \/ Local \/ Drained \/ Leave
        \/ Sd1 \/ SdApart \/ Sd2 \/ Sd3 \/ Sd4
Spec == Init /\ [][Next]_vars
             /\ WF_vars(Look) /\ WF_vars(Woken) /\ WF_vars(Check) /\ WF_vars(Late) /\ WF_vars(Run) /\ WF_vars(Drained) /\ WF_vars(Leave)
             /\ WF_vars(SdApart) /\ WF_vars(Sd2) /\ WF_vars(Sd3) /\ WF_vars(Sd4)
             /\ \A c \in Callers : WF_vars(Enter(c)) /\ WF_vars(Release(c))
Account == accepted = ran + dropped + pub + priv
OneThread == ~twice
\* when nobody is about to do something there is no task waiting: not even for the idle time
Settled == \A c \in Callers : pc[c] # "release"
NothingLeft == (Settled /\ pub > 0 /\ sd = "no") => wpc \notin {"off", "leave"} /\ (wpc = "sleep" => (sem > 0 /\ flag))
Final == sd = "done" => wpc = "off" /\ idle /\ pub = 0 /\ priv = 0
Returns == (sd # "no") ~> (sd = "done")
AllRun == <>[](pub = 0 /\ priv = 0)
=============================================================================
