------------------------------ MODULE Executor ------------------------------
(* What a client may rely on when it hands tasks to executors.               *)
(*                                                                           *)
(* Tasks are submitted (singly or in bulk, from client threads or from       *)
(* inside tasks) to executors of five kinds:                                 *)
(*   inline  runs in the submitting call                                     *)
(*   manual  runs in threads that loop over its queue                        *)
(*   thread  one new thread per task                                         *)
(*   worker  one thread, in order                                            *)
(*   pool    at most n threads                                               *)
(* An accepted task runs exactly once, or is discarded because the executor  *)
(* was shut down; the outcome of a submitted task reaches its result.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Aspects     \* which families of obligations are enforced
VARIABLES kindOf,     \* [executor -> [kind, n, lp]]
          task,       \* [task -> [x executor, m mode, thr throws]]
          st,         \* [task -> "new" | "called" | "acc" | "rej" | "run" | "fin"]
          where,      \* [task -> thread it runs on, or -1]
          by,         \* [task -> thread that submitted it, or -1]
          pred,       \* [task -> tasks that have to start before it]
          late,       \* tasks whose submission began after the executor was down
          called,     \* executors for which shutdown has been called
          open,       \* [executor -> shutdown calls in progress]
          down,       \* executors that are completely shut down
          after,      \* [executor -> number of tasks started after it was down]
          clients,    \* client threads
          loopers,    \* [thread -> executor] of threads looping over a manual executor
          owned       \* [executor -> threads that ran its tasks]
evars == <<kindOf, task, st, where, by, pred, late, called, open, down, after, clients, loopers, owned>>

Chk(a) == a \in Aspects
Tasks == DOMAIN task
Execs == DOMAIN kindOf
Kind(k) == kindOf[task[k].x].kind
Started(k) == st[k] \in {"run", "fin"}

EInit(kinds, tasks) ==
  /\ kindOf = kinds /\ task = tasks
  /\ st = [k \in DOMAIN tasks |-> "new"] /\ where = [k \in DOMAIN tasks |-> -1]
  /\ by = [k \in DOMAIN tasks |-> -1] /\ pred = [k \in DOMAIN tasks |-> {}]
  /\ late = {} /\ called = {} /\ open = [x \in DOMAIN kinds |-> 0] /\ down = {}
  /\ after = [x \in DOMAIN kinds |-> 0]
  /\ clients = {} /\ loopers = <<>> /\ owned = [x \in DOMAIN kinds |-> {}]

Client(t) == clients' = clients \cup {t}
             /\ UNCHANGED <<kindOf, task, st, where, by, pred, late, called, open, down, after, loopers, owned>>
Looper(t, x) == /\ loopers' = [u \in DOMAIN loopers \cup {t} |-> IF u = t THEN x ELSE loopers[u]]
                /\ UNCHANGED <<kindOf, task, st, where, by, pred, late, called, open, down, after, clients, owned>>

\* Submission of the tasks ks (in this order) by thread t.
Before(ks, i) == {ks[j] : j \in 1..(i - 1)}
Index(ks, k)  == CHOOSE i \in DOMAIN ks : ks[i] = k
\* ordering promised by the executor: by the same submitter, or (manual with
\* one looping thread) by anybody whose submission had already returned
Ordered(t, x) ==
  {j \in Tasks : /\ task[j].x = x /\ st[j] \notin {"new", "rej"}
                 /\ \/ kindOf[x].kind = "worker" /\ by[j] = t /\ st[j] # "called"
                    \/ kindOf[x].kind = "manual" /\ kindOf[x].lp = 1 /\ st[j] # "called"}
Submit(t, x, ks) ==
  LET K == {ks[i] : i \in DOMAIN ks} IN
  /\ \A k \in K : st[k] = "new" /\ task[k].x = x
  /\ st' = [k \in Tasks |-> IF k \in K THEN "called" ELSE st[k]]
  /\ by' = [k \in Tasks |-> IF k \in K THEN t ELSE by[k]]
  /\ pred' = [k \in Tasks |-> IF k \in K
                THEN IF kindOf[x].kind = "worker" \/ (kindOf[x].kind = "manual" /\ kindOf[x].lp = 1)
                     THEN Ordered(t, x) \cup Before(ks, Index(ks, k)) ELSE {}
                ELSE pred[k]]
  /\ late' = IF x \in down THEN late \cup K ELSE late
  /\ UNCHANGED <<kindOf, task, where, called, open, down, after, clients, loopers, owned>>

\* The submission returned normally ...
Accept(t, ks) ==
  LET K == {ks[i] : i \in DOMAIN ks} IN
  /\ \A k \in K : st[k] \in {"called", "run", "fin"} /\ by[k] = t
  \* ... which a refusal by a closed executor must not look like, unless the
  \* refusal is delivered through the result
  /\ Chk("shutdown") => \A k \in K : k \in late => task[k].m = "submit" /\ st[k] = "called"
  /\ Chk("place") => \A k \in K : Kind(k) = "inline" => st[k] = "fin" \/ task[k].x \in called
  /\ st' = [k \in Tasks |-> IF k \in K /\ st[k] = "called" THEN "acc" ELSE st[k]]
  /\ UNCHANGED <<kindOf, task, where, by, pred, late, called, open, down, after, clients, loopers, owned>>
\* ... or was refused, which only a shutdown justifies.
Refuse(t, ks) ==
  LET K == {ks[i] : i \in DOMAIN ks} IN
  /\ \A k \in K : by[k] = t
  /\ Chk("shutdown") => \A k \in K : task[k].x \in called
  /\ Chk("once") => (Len(ks) = 1 => st[ks[1]] = "called")
  /\ st' = [k \in Tasks |-> IF k \in K /\ st[k] = "called" /\ Len(ks) = 1 THEN "rej"
                            ELSE IF k \in K /\ st[k] = "called" THEN "maybe" ELSE st[k]]
  /\ UNCHANGED <<kindOf, task, where, by, pred, late, called, open, down, after, clients, loopers, owned>>

Running(x) == {k \in Tasks : task[k].x = x /\ st[k] = "run"}
PlaceOK(k, t) ==
  LET x == task[k].x IN
  CASE Kind(k) = "inline" -> t = by[k]
    [] Kind(k) = "manual" -> t \in DOMAIN loopers /\ loopers[t] = x
    [] Kind(k) = "thread" -> /\ t \notin clients /\ t \notin DOMAIN loopers
                             /\ \A j \in Tasks : where[j] = t => Kind(j) = "inline"
    [] Kind(k) = "worker" -> /\ t \notin clients /\ t \notin DOMAIN loopers
                             /\ owned[x] \subseteq {t}
                             /\ \A y \in Execs \ {x} : t \in owned[y] => kindOf[y].kind = "inline"
    [] OTHER              -> /\ t \notin clients /\ t \notin DOMAIN loopers
                             /\ \A y \in Execs \ {x} : t \in owned[y] => kindOf[y].kind = "inline"
Run(k, t) ==
  LET x == task[k].x IN
  /\ Chk("once")  => st[k] \in {"called", "acc", "maybe"}
  /\ Chk("place") => PlaceOK(k, t)
  /\ Chk("order") => /\ \A j \in pred[k] : Started(j)
                     /\ Kind(k) = "worker" => Running(x) = {}
                     /\ Kind(k) = "pool"   => Cardinality(Running(x)) < kindOf[x].n
                     /\ Kind(k) = "manual" => Cardinality(Running(x)) < kindOf[x].lp
  /\ Chk("shutdown") => /\ k \notin late
                        /\ x \in down => /\ Kind(k) \in {"inline", "manual"}
                                         /\ Kind(k) = "manual" => after[x] < kindOf[x].lp
  /\ st' = [st EXCEPT ![k] = "run"] /\ where' = [where EXCEPT ![k] = t]
  /\ owned' = [owned EXCEPT ![x] = @ \cup {t}]
  /\ after' = IF x \in down THEN [after EXCEPT ![x] = @ + 1] ELSE after
  /\ UNCHANGED <<kindOf, task, by, pred, late, called, open, down, clients, loopers>>
Finish(k, t) ==
  /\ st[k] = "run" /\ where[k] = t
  /\ Chk("shutdown") => (task[k].x \in down => Kind(k) \in {"inline", "manual"})
  /\ st' = [st EXCEPT ![k] = "fin"]
  /\ UNCHANGED <<kindOf, task, where, by, pred, late, called, open, down, after, clients, loopers, owned>>

\* Every accepted task has finished, unless a shutdown intervened.
Settled ==
  /\ Chk("once") => \A k \in Tasks : st[k] \in {"called", "acc", "run"} => task[k].x \in called
  /\ UNCHANGED evars

Shutdown(x) == /\ called' = called \cup {x} /\ open' = [open EXCEPT ![x] = @ + 1]
               /\ UNCHANGED <<kindOf, task, st, where, by, pred, late, down, after, clients, loopers, owned>>
ShutdownDone(x, req) ==
  /\ open[x] > 0
  /\ Chk("shutdown") => req
  /\ open' = [open EXCEPT ![x] = @ - 1]
  /\ down' = IF open[x] = 1 THEN down \cup {x} ELSE down
  \* threads are gone once an executor with threads of its own is down
  /\ Chk("shutdown") => (open[x] = 1 /\ kindOf[x].kind \in {"thread", "worker", "pool"} => Running(x) = {})
  \* the thread executor never discards a task it has accepted
  /\ Chk("once") => (open[x] = 1 /\ kindOf[x].kind = "thread"
                       => \A k \in Tasks : task[k].x = x /\ k \notin late /\ task[k].m # "submit" => st[k] # "acc")
  /\ UNCHANGED <<kindOf, task, st, where, by, pred, late, called, after, clients, loopers, owned>>

\* What the result of a submitted task finally says.
Got(k, r) ==
  /\ Chk("once") =>
       CASE r = "val"    -> st[k] = "fin" /\ ~task[k].thr
         [] r = "exc"    -> st[k] = "fin" /\ task[k].thr
         [] r = "broken" -> st[k] \in {"acc", "called", "rej", "maybe"} /\ task[k].x \in called
         [] OTHER        -> FALSE
  /\ UNCHANGED evars

Finished ==
  /\ \A k \in Tasks : st[k] # "run"
  /\ Chk("shutdown") => \A x \in Execs : open[x] = 0
  /\ UNCHANGED evars
=============================================================================
