------------------------------ MODULE ResultCas -----------------------------
(* The one word that a result's producer and its consumer change, and what   *)
(* they do around it: blocking, timed waits, a suspended coroutine, being    *)
(* one of several results waited for (and taken back), being dropped.        *)
EXTENDS Integers
CONSTANTS Ops,   \* operations the consumer still makes
          Bug    \* "none" | "noback" | "blindback" | "lateset" | "notaken" | "dropdone"
VARIABLES st,      \* the word: idle, waiting, set, pdone, cdone
          ppc, prior, \* the producer and what it found in the word
          cpc, n,  \* the consumer and how many operations it has left
          cons,    \* what the consumer left for the producer: none, await, any
          cset, taken, copied, \* consumer: something was set; producer: it was taken / is in hand
          asleep, freed, resumed, told, uaf, saw
vars == <<st, ppc, prior, cpc, n, cons, cset, taken, copied, asleep, freed, resumed, told, uaf, saw>>
Init == /\ st = "idle" /\ ppc = "work" /\ prior = "none" /\ cpc = "free" /\ n = Ops /\ cons = "none" /\ cset = FALSE
        /\ taken = FALSE /\ copied = "none" /\ asleep = FALSE /\ freed = 0 /\ resumed = 0 /\ told = 0 /\ uaf = FALSE /\ saw = TRUE
Use == uaf' = (uaf \/ freed > 0)
\* --- the producer
Finish == /\ ppc = "work" /\ Use /\ prior' = st /\ st' = "pdone"
          /\ ppc' = CASE st = "set" -> "take" [] st = "idle" -> "end" [] st = "waiting" -> "wake"
                      [] st = "cdone" -> "free" [] OTHER -> "end"
          /\ UNCHANGED <<cpc, n, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
PFree == /\ ppc = "free" /\ freed' = freed + 1 /\ ppc' = "end"
         /\ UNCHANGED <<st, prior, cpc, n, cons, cset, taken, copied, asleep, resumed, told, uaf, saw>>
\* (notifying uses the address of the word only)
Wake == /\ ppc = "wake" /\ asleep' = FALSE /\ ppc' = "end"
        /\ UNCHANGED <<st, prior, cpc, n, cons, cset, taken, copied, freed, resumed, told, uaf, saw>>
TakeCopy == /\ ppc = "take" /\ Use /\ copied' = cons /\ ppc' = "taken"
            /\ UNCHANGED <<st, prior, cpc, n, cons, cset, taken, asleep, freed, resumed, told, saw>>
Taken == /\ ppc = "taken" /\ Use /\ taken' = TRUE /\ ppc' = "go"
         /\ UNCHANGED <<st, prior, cpc, n, cons, cset, copied, asleep, freed, resumed, told, saw>>
Go == /\ ppc = "go" /\ ppc' = "end"
      /\ IF copied = "await" THEN resumed' = resumed + 1 /\ cpc' = "resumed" /\ UNCHANGED told
         ELSE told' = told + (IF copied = "any" THEN 1 ELSE 0) /\ UNCHANGED <<resumed, cpc>>
      /\ UNCHANGED <<st, prior, n, cons, cset, taken, copied, asleep, freed, uaf, saw>>
\* --- the consumer
Begin(op) == /\ cpc = "free" /\ n > 0 /\ n' = n - 1 /\ Use
             /\ IF st = "pdone" THEN cpc' = "got" ELSE cpc' = op
             /\ UNCHANGED <<st, ppc, prior, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
CWait(op) == /\ cpc = op /\ op \in {"wait", "timed"} /\ Use
             /\ IF st = "idle" THEN st' = "waiting" /\ asleep' = TRUE /\ cpc' = (IF op = "wait" THEN "asleep" ELSE "napping")
                ELSE cpc' = "got" /\ UNCHANGED <<st, asleep>>
             /\ UNCHANGED <<ppc, prior, n, cons, cset, taken, copied, freed, resumed, told, saw>>
\* the wait looks at the word when it is woken (or for no reason at all)
Awake == /\ cpc \in {"asleep", "napping"} /\ st = "pdone" /\ (~asleep) /\ Use /\ cpc' = "got"
         /\ UNCHANGED <<st, ppc, prior, n, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
Spurious == /\ cpc \in {"asleep", "napping"} /\ st = "pdone" /\ asleep /\ Use /\ cpc' = "got" /\ asleep' = FALSE
            /\ UNCHANGED <<st, ppc, prior, n, cons, cset, taken, copied, freed, resumed, told, saw>>
TimeUp == /\ cpc = "napping" /\ Use /\ cpc' = "back" /\ asleep' = FALSE
          /\ UNCHANGED <<st, ppc, prior, n, cons, cset, taken, copied, freed, resumed, told, saw>>
Back == /\ cpc = "back" /\ Use
        /\ CASE Bug = "noback" -> cpc' = "free" /\ UNCHANGED st
             [] Bug = "blindback" -> cpc' = "free" /\ st' = "idle"
             [] OTHER -> IF st = "waiting" THEN st' = "idle" /\ cpc' = "free" ELSE cpc' = "got" /\ UNCHANGED st
        /\ UNCHANGED <<ppc, prior, n, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
\* leaves its coroutine, or the context of several results
Leave(op) == /\ cpc = op /\ op \in {"await", "any"} /\ Use
             /\ IF Bug = "lateset" THEN UNCHANGED <<cons, cset>> ELSE cons' = op /\ cset' = TRUE
             /\ cpc' = (IF op = "await" THEN "await2" ELSE "any2")
             /\ UNCHANGED <<st, ppc, prior, n, taken, copied, asleep, freed, resumed, told, saw>>
Set(op) == /\ cpc = (IF op = "await" THEN "await2" ELSE "any2") /\ op \in {"await", "any"} /\ Use
           /\ IF st = "idle" THEN st' = "set" /\ cpc' = (IF Bug = "lateset" THEN (IF op = "await" THEN "await3" ELSE "any3")
                                                        ELSE IF op = "await" THEN "suspended" ELSE "among") /\ UNCHANGED cset
              ELSE cset' = FALSE /\ cpc' = "got" /\ UNCHANGED st
           /\ UNCHANGED <<ppc, prior, n, cons, taken, copied, asleep, freed, resumed, told, saw>>
LateSet(op) == /\ cpc = (IF op = "await" THEN "await3" ELSE "any3") /\ Use /\ cons' = op /\ cset' = TRUE
               /\ cpc' = (IF op = "await" THEN "suspended" ELSE "among")
               /\ UNCHANGED <<st, ppc, prior, n, taken, copied, asleep, freed, resumed, told, saw>>
Resumed == /\ cpc = "resumed" /\ Use /\ cpc' = "got"
           /\ UNCHANGED <<st, ppc, prior, n, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
\* another of the results is there: this one is taken back
Rewind == /\ cpc = "among" /\ Use
          /\ IF st = "set" THEN st' = "idle" /\ cpc' = "rewound" ELSE cpc' = "got" /\ UNCHANGED st
          /\ UNCHANGED <<ppc, prior, n, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
Rewound == /\ cpc = "rewound" /\ Use /\ cons' = "none" /\ cset' = FALSE /\ cpc' = "free"
           /\ UNCHANGED <<st, ppc, prior, n, taken, copied, asleep, freed, resumed, told, saw>>
\* an outcome is there: it is read, and the state released
Got == /\ cpc = "got" /\ Use /\ saw' = (saw /\ st = "pdone")
       /\ cpc' = (IF cset /\ ~taken /\ Bug # "notaken" THEN "untaken" ELSE "release")
       /\ UNCHANGED <<st, ppc, prior, n, cons, cset, taken, copied, asleep, freed, resumed, told>>
Untaken == /\ cpc = "untaken" /\ taken /\ Use /\ cpc' = "release"
           /\ UNCHANGED <<st, ppc, prior, n, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
Release == /\ cpc = "release" /\ freed' = freed + 1 /\ cpc' = "end"
           /\ UNCHANGED <<st, ppc, prior, n, cons, cset, taken, copied, asleep, resumed, told, uaf, saw>>
Drop == /\ cpc = "free" /\ Use /\ st' = "cdone"
        /\ cpc' = IF st = "pdone" \/ Bug = "dropdone"
                  THEN (IF cset /\ ~taken THEN "untaken" ELSE "release") ELSE "end"
        /\ UNCHANGED <<ppc, prior, n, cons, cset, taken, copied, asleep, freed, resumed, told, saw>>
Producer == Finish \/ PFree \/ Wake \/ TakeCopy \/ Taken \/ Go
Consumer == \/ \E op \in {"wait", "timed", "await", "any"} : Begin(op) \/ CWait(op) \/ Leave(op) \/ Set(op)
            \/ \E op \in {"await", "any"} : LateSet(op)
            \/ Awake \/ Spurious \/ TimeUp \/ Back \/ Resumed \/ Rewind \/ Rewound \/ Got \/ Untaken \/ Release \/ Drop
Next == Producer \/ Consumer
Spec == Init /\ [][Next]_vars /\ WF_vars(Producer) /\ WF_vars(Consumer)
NotUsedAfterFree == ~uaf
FreedOnce == freed <= 1
ResumedOnce == resumed <= 1 /\ told <= 1 /\ (resumed + told > 0 => st \in {"pdone", "cdone"})
SawOutcome == saw
\* what the producer found is what it may find
Expected == prior \in {"none", "idle", "waiting", "set", "cdone"}
NotForgotten == (ppc = "end" /\ cpc \in {"asleep", "napping"}) => ~asleep
\* a coroutine or a context that was left is found: the producer knows whom to tell
Left == (ppc = "end" /\ prior = "set") => copied # "none"
Ends == <>(ppc = "end" /\ cpc = "end")
FreedAtEnd == (ppc = "end" /\ cpc = "end") => freed = 1
=============================================================================
