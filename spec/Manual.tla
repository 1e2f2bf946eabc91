-------------------------------- MODULE Manual --------------------------------
(* The manual executor as a linearisable queue of tasks with waiting.         *)
(* Each call takes effect in hidden steps between its call and its return.    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q,      \* queued tasks, oldest first
          req,    \* shutdown has been requested
          abort,  \* shutdown has taken effect
          pc      \* [thread -> call in progress]
mvars == <<q, req, abort, pc>>

Idle == [ph |-> "idle", op |-> "none", n |-> 0, w |-> 0, ks |-> <<>>, cnt |-> 0, cur |-> 0, r |-> 0, tmo |-> FALSE]
Counted == {"loop", "loop_for", "loop_until"}
Onces   == {"loop_once", "loop_once_for", "loop_once_until"}
Loops   == Counted \cup Onces
\* loops that wait for tasks up to a time limit
Timed(c) == c.op \in {"loop_once_until", "loop_until"} \/ (c.op \in {"loop_once_for", "loop_for"} /\ c.w > 0)
Limit(c) == IF c.op \in Counted THEN c.n ELSE 1
Err == -1
Min(a, b) == IF a < b THEN a ELSE b

MInit(T) == q = <<>> /\ req = FALSE /\ abort = FALSE /\ pc = [t \in T |-> Idle]

Call(t, o, n, w, ks) ==
  /\ pc[t].ph = "idle"
  /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.op = o, !.n = n, !.w = w, !.ks = ks,
                                          !.ph = IF o \in Loops THEN "loop" ELSE "call"]]
  /\ UNCHANGED <<q, req, abort>>

Done(t, r)  == pc' = [pc EXCEPT ![t].ph = "done", ![t].r = r]
\* done, but only if the time limit has passed when it returns
Late(t, r)  == pc' = [pc EXCEPT ![t].ph = "done", ![t].r = r, ![t].tmo = TRUE]
Same == UNCHANGED <<q, req, abort>>

\* The hidden step in which the call of thread t takes effect.
Lin(t) ==
  LET c == pc[t] o == c.op IN
  /\ c.ph = "call"
  /\ CASE o \in {"post", "bpost"} ->
            IF abort THEN Done(t, Err) /\ Same
            ELSE Done(t, 0) /\ q' = q \o c.ks /\ UNCHANGED <<req, abort>>
       [] o = "size"      -> Done(t, Len(q)) /\ Same
       [] o = "empty"     -> Done(t, IF q = <<>> THEN 1 ELSE 0) /\ Same
       [] o = "requested" -> Done(t, IF req THEN 1 ELSE 0) /\ Same
       [] o = "clear"     -> IF abort THEN Done(t, Err) /\ Same
                             ELSE Done(t, Len(q)) /\ q' = <<>> /\ UNCHANGED <<req, abort>>
       [] o = "wait_for_task" ->
            \/ abort /\ Done(t, Err) /\ Same
            \/ ~abort /\ Len(q) >= 1 /\ Done(t, 0) /\ Same
       [] o = "wait_for_tasks" ->
            IF c.n = 0 THEN Done(t, IF req THEN Err ELSE 0) /\ Same
            ELSE \/ abort /\ Done(t, Err) /\ Same
                 \/ ~abort /\ Len(q) >= c.n /\ Done(t, 0) /\ Same
       [] o \in {"wait_for_task_for", "wait_for_task_until"} ->
            \/ abort /\ Done(t, Err) /\ Same
            \/ ~abort /\ Len(q) >= 1 /\ Done(t, 1) /\ Same
            \/ ~abort /\ Len(q) = 0 /\ Late(t, 0) /\ Same
       [] o \in {"wait_for_tasks_for", "wait_for_tasks_until"} ->
            \/ abort /\ Done(t, Err) /\ Same
            \/ ~abort /\ Len(q) >= c.n /\ Done(t, Len(q)) /\ Same
            \/ ~abort /\ Len(q) < c.n /\ Late(t, Len(q)) /\ Same
       [] o = "shutdown" ->
            IF req THEN Done(t, 0) /\ Same
            ELSE /\ req' = TRUE /\ UNCHANGED <<q, abort>>
                 /\ pc' = [pc EXCEPT ![t].ph = "sd"]
       [] OTHER -> FALSE
\* shutdown discards what is still queued
Abort(t) == /\ pc[t].ph = "sd" /\ abort' = TRUE /\ q' = <<>> /\ UNCHANGED req /\ Done(t, 0)

\* Looping: take the oldest task, run it, count it.
Pop(t) == /\ pc[t].ph = "loop" /\ pc[t].cur = 0 /\ pc[t].cnt < Limit(pc[t]) /\ ~abort /\ q # <<>>
          /\ pc' = [pc EXCEPT ![t].cur = Head(q)] /\ q' = Tail(q) /\ UNCHANGED <<req, abort>>
Run(t, k) == /\ pc[t].ph = "loop" /\ pc[t].cur = k
             /\ pc' = [pc EXCEPT ![t].cur = 0, ![t].cnt = @ + 1] /\ Same
Count(c) == c.cnt
Stop(t) ==
  LET c == pc[t] IN
  /\ c.ph = "loop" /\ c.cur = 0
  /\ \/ c.cnt = Limit(c) /\ pc' = [pc EXCEPT ![t].ph = "stopped", ![t].r = c.cnt]
     \/ abort            /\ pc' = [pc EXCEPT ![t].ph = "stopped", ![t].r = c.cnt]
     \/ ~Timed(c) /\ q = <<>> /\ pc' = [pc EXCEPT ![t].ph = "stopped", ![t].r = c.cnt]
     \/ Timed(c)         /\ pc' = [pc EXCEPT ![t].ph = "stopped", ![t].r = c.cnt, ![t].tmo = TRUE]
  /\ Same
\* whether a shutdown was requested is looked at last
Check(t) == /\ pc[t].ph = "stopped"
            /\ pc' = [pc EXCEPT ![t].ph = "done", ![t].r = IF req /\ Limit(pc[t]) > 0 THEN Err ELSE @]
            /\ Same

Ret(t, r, d) ==
  LET c == pc[t] IN
  /\ c.ph = "done" /\ r = c.r
  /\ c.tmo => d >= c.w
  /\ pc' = [pc EXCEPT ![t] = Idle] /\ Same

Hid(t) == Lin(t) \/ Abort(t) \/ Pop(t) \/ Stop(t) \/ Check(t)
\* nothing moves any more: only waits for more tasks than are queued are left
Quiet == \A t \in DOMAIN pc :
  \/ pc[t].ph = "idle"
  \/ /\ pc[t].ph = "call" /\ ~abort
     /\ \/ pc[t].op = "wait_for_task" /\ q = <<>>
        \/ pc[t].op = "wait_for_tasks" /\ Len(q) < pc[t].n
Finished == \A t \in DOMAIN pc : pc[t].ph = "idle"
=============================================================================
