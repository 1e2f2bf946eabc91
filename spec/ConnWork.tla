------------------------------- MODULE ConnWork -------------------------------
(* How one connection gets its work done: the thread that polls (edges are      *)
(* reported once), the threads that send, the executor's tasks, and the flags   *)
(* that tell a task what to do.  A task pulls what the kernel has, pushes what   *)
(* is queued and hands packets over; it must leave nothing behind when no flag   *)
(* is set and no task is queued, and only one task may work at a time.           *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS NIn, NOut,       \* units the peer and the senders produce
          Senders, Tasks,  \* sender threads; tasks that can be queued at once
          Bug              \* "none" or the name of a step done wrongly
VARIABLES kin, fin, edge, sent,     \* kernel input, end of stream, edge to report, units produced by the peer
          ist, ost, wire,           \* pulled, queued to send, pushed
          fI, fO, fC,               \* flags
          mark,                     \* a task is queued or at work
          pp, sp, tp,               \* program counters of poller, senders, tasks
          todo, made, gone, sawfin, \* units to send per sender; produced; handed over; end of stream noticed
          see                       \* what a task has read
vars == <<kin, fin, edge, sent, ist, ost, wire, fI, fO, fC, mark, pp, sp, tp, todo, made, gone, sawfin, see>>
Init == /\ kin = 0 /\ fin = FALSE /\ edge = FALSE /\ sent = 0 /\ ist = 0 /\ ost = 0 /\ wire = 0
        /\ fI = FALSE /\ fO = FALSE /\ fC = FALSE /\ mark = FALSE /\ pp = "wait"
        /\ sp = [s \in Senders |-> "idle"] /\ tp = [t \in Tasks |-> "none"] /\ todo = [s \in Senders |-> NOut]
        /\ made = 0 /\ gone = 0 /\ sawfin = FALSE /\ see = [t \in Tasks |-> FALSE]
\* the peer
PeerSend == /\ sent < NIn /\ ~fin /\ kin' = kin + 1 /\ sent' = sent + 1 /\ edge' = TRUE
            /\ UNCHANGED <<fin, ist, ost, wire, fI, fO, fC, mark, pp, sp, tp, todo, made, gone, sawfin, see>>
PeerFin == /\ ~fin /\ sent = NIn /\ fin' = TRUE /\ edge' = TRUE
           /\ UNCHANGED <<kin, sent, ist, ost, wire, fI, fO, fC, mark, pp, sp, tp, todo, made, gone, sawfin, see>>
\* queueing a task, under the manager's lock
Free == {t \in Tasks : tp[t] = "none"}
Enq == IF mark /\ Bug # "nomark" THEN UNCHANGED <<mark, tp>>
       ELSE \/ mark' = TRUE /\ (\E t \in Free : tp' = [tp EXCEPT ![t] = "input"])
            \/ Free = {} /\ UNCHANGED <<mark, tp>>
\* the poller
Poll1 == /\ pp = "wait" /\ edge /\ edge' = FALSE
         /\ IF fI THEN pp' = "wait" /\ UNCHANGED fI ELSE pp' = "enq" /\ fI' = TRUE
         /\ UNCHANGED <<kin, fin, sent, ist, ost, wire, fO, fC, mark, sp, tp, todo, made, gone, sawfin, see>>
Poll2 == /\ pp = "enq" /\ Enq /\ pp' = "wait"
         /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fO, fC, sp, todo, made, gone, sawfin, see>>
\* a sender: write, set the flag, queue a task
Send1(s) == /\ sp[s] = "idle" /\ todo[s] > 0 /\ ost' = ost + 1 /\ made' = made + 1
            /\ todo' = [todo EXCEPT ![s] = @ - 1] /\ sp' = [sp EXCEPT ![s] = "flag"]
            /\ UNCHANGED <<kin, fin, edge, sent, ist, wire, fI, fO, fC, mark, pp, tp, gone, sawfin, see>>
Send2(s) == /\ sp[s] = "flag" /\ fO' = TRUE /\ sp' = [sp EXCEPT ![s] = IF fO THEN "idle" ELSE "enq"]
            /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fC, mark, pp, tp, todo, made, gone, sawfin, see>>
Send3(s) == /\ sp[s] = "enq" /\ Enq /\ sp' = [sp EXCEPT ![s] = "idle"]
            /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fO, fC, pp, todo, made, gone, sawfin, see>>
\* a task
Go(t, p) == tp' = [tp EXCEPT ![t] = p]
In1(t) == /\ tp[t] = "input"
          /\ IF ~fI THEN Go(t, "output") /\ UNCHANGED fI
             ELSE Go(t, "pull") /\ fI' = (Bug = "clearlate")
          /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fO, fC, mark, pp, sp, todo, made, gone, sawfin, see>>
\* some of what is there, at most two units at once
Pull(t) == /\ tp[t] = "pull"
           /\ \/ \E n \in 1..2 : /\ n <= kin /\ (n = 2 \/ kin = 1) /\ kin' = kin - n /\ ist' = ist + n
                                 /\ see' = [see EXCEPT ![t] = TRUE] /\ UNCHANGED sawfin
              \/ kin = 0 /\ fin /\ sawfin' = TRUE /\ see' = [see EXCEPT ![t] = FALSE] /\ UNCHANGED <<kin, ist>>
              \/ kin = 0 /\ ~fin /\ see' = [see EXCEPT ![t] = FALSE] /\ UNCHANGED <<kin, ist, sawfin>>
           /\ Go(t, "pulled")
           /\ UNCHANGED <<fin, edge, sent, ost, wire, fI, fO, fC, mark, pp, sp, todo, made, gone>>
\* more may be there if something was pulled; (wrongly: look, then clear)
Pulled(t) == /\ tp[t] = "pulled"
             /\ IF Bug = "clearlate"
                THEN /\ see' = [see EXCEPT ![t] = kin = 0] /\ Go(t, "clear")
                     /\ fC' = (fC \/ see[t]) /\ UNCHANGED fI
                ELSE /\ fC' = (fC \/ see[t]) /\ fI' = (fI \/ (see[t] /\ Bug # "noagain")) /\ Go(t, "output") /\ UNCHANGED see
             /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fO, mark, pp, sp, todo, made, gone, sawfin>>
Clear(t) == /\ tp[t] = "clear" /\ fI' = (fI /\ ~see[t]) /\ Go(t, "output")
            /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fO, fC, mark, pp, sp, todo, made, gone, sawfin, see>>
\* push some of what is queued, and clear the flag if all of it went, in one go
Out(t) == /\ tp[t] = "output"
          /\ IF ~fO THEN Go(t, "cmd") /\ UNCHANGED <<ost, wire, fO, see>>
             ELSE \E n \in 0..ost :
                    /\ (n = 0 => ost > 0 \/ TRUE) /\ ost' = ost - n /\ wire' = wire + n
                    /\ IF Bug = "outlate" THEN see' = [see EXCEPT ![t] = ost' = 0] /\ UNCHANGED fO /\ Go(t, "outclear")
                       ELSE fO' = (ost' # 0) /\ Go(t, "cmd") /\ UNCHANGED see
          /\ UNCHANGED <<kin, fin, edge, sent, ist, fI, fC, mark, pp, sp, todo, made, gone, sawfin>>
OutClear(t) == /\ tp[t] = "outclear" /\ fO' = (fO /\ ~see[t]) /\ Go(t, "cmd")
               /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fC, mark, pp, sp, todo, made, gone, sawfin, see>>
\* hand over one unit at a time
Cmd(t) == /\ tp[t] = "cmd"
          /\ IF fC /\ ist > 0 THEN ist' = ist - 1 /\ gone' = gone + 1 /\ fC' = (ist' > 0)
             ELSE fC' = FALSE /\ UNCHANGED <<ist, gone>>
          /\ Go(t, "release")
          /\ UNCHANGED <<kin, fin, edge, sent, ost, wire, fI, fO, mark, pp, sp, todo, made, sawfin, see>>
Rel1(t) == /\ tp[t] = "release"
           /\ IF Bug = "recheckfirst"       \* looks before it gives up its mark
              THEN /\ see' = [see EXCEPT ![t] = fI \/ fO \/ fC] /\ Go(t, "rel2") /\ UNCHANGED mark
              ELSE /\ mark' = FALSE /\ Go(t, "look") /\ UNCHANGED see
           /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fO, fC, pp, sp, todo, made, gone, sawfin>>
Rel2(t) == /\ tp[t] = "rel2" /\ mark' = FALSE /\ Go(t, IF see[t] THEN "again" ELSE "none")
           /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fO, fC, pp, sp, todo, made, gone, sawfin, see>>
Look(t) == /\ tp[t] = "look" /\ Go(t, IF fI \/ fO \/ fC THEN "again" ELSE "none")
           /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fO, fC, mark, pp, sp, todo, made, gone, sawfin, see>>
Again(t) == /\ tp[t] = "again"
            /\ IF mark /\ Bug # "nomark" THEN Go(t, "none") /\ UNCHANGED mark
               ELSE mark' = TRUE /\ Go(t, "input")
            /\ UNCHANGED <<kin, fin, edge, sent, ist, ost, wire, fI, fO, fC, pp, sp, todo, made, gone, sawfin, see>>
Task(t) == In1(t) \/ Pull(t) \/ Pulled(t) \/ Clear(t) \/ Out(t) \/ OutClear(t) \/ Cmd(t) \/ Rel1(t) \/ Rel2(t) \/ Look(t) \/ Again(t)
Next == PeerSend \/ PeerFin \/ Poll1 \/ Poll2 \/ (\E s \in Senders : Send1(s) \/ Send2(s) \/ Send3(s)) \/ (\E t \in Tasks : Task(t))
Spec == Init /\ [][Next]_vars

Working == {"input", "pull", "pulled", "clear", "output", "outclear", "cmd", "release", "rel2"}
OneAtATime == Cardinality({t \in Tasks : tp[t] \in Working}) <= 1
AtRest == /\ ~edge /\ pp = "wait" /\ (\A s \in Senders : sp[s] = "idle") /\ (\A t \in Tasks : tp[t] = "none")
NothingLeft == AtRest => /\ kin = 0 /\ ist = 0 /\ ost = 0 /\ (fin => sawfin)
                         /\ gone = sent /\ wire = made
=============================================================================
