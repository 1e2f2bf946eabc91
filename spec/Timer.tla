--------------------------------- MODULE Timer ---------------------------------
(* Timers and delays.  A one-shot timer fires once, a periodic one again and     *)
(* again, on its executor, never before it is due, and not after it has been     *)
(* cancelled (except for firings already under way); a delay wakes its coroutine *)
(* once, when due, or tells it that the queue or the executor was shut down.     *)
(* Times are in microseconds, due times and frequencies in milliseconds.         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind,    \* [executor -> kind]
          def,     \* [timer -> [x, kind, due, f]]
          thr,     \* [executor -> its threads]
          cli,     \* client threads
          ts,      \* [timer -> [st, made, n, minf, maxf, f, grace, n0]]
          calm,    \* since when nothing but time disturbs the timers
          run,     \* firings in progress: set of <<timer, thread>>
          qcalled, qopen, qdown, qat,   \* queue shutdown called / returned / when
          xcalled, xopen, xdown
tvs == <<kind, def, thr, cli, ts, calm, run, qcalled, qopen, qdown, qat, xcalled, xopen, xdown>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Conc(x) == IF kind[x] = "pool" THEN 2 ELSE 1

TInit0(k, d) ==
  /\ kind = k /\ def = d /\ thr = [x \in DOMAIN k |-> {}] /\ cli = {} /\ run = {}
  /\ ts = [t \in DOMAIN d |-> [st |-> "none", made |-> 0, n |-> 0, f |-> d[t].f, minf |-> d[t].f, maxf |-> d[t].f, grace |-> 0, n0 |-> 0]] /\ calm = 0
  /\ qcalled = FALSE /\ qopen = 0 /\ qdown = FALSE /\ qat = -1 /\ xcalled = {} /\ xopen = [x \in DOMAIN k |-> 0] /\ xdown = {}

Client(t) == cli' = cli \cup {t} /\ UNCHANGED <<kind, def, thr, ts, calm, run, qcalled, qopen, qdown, qat, xcalled, xopen, xdown>>
Thr(x, t) == thr' = [thr EXCEPT ![x] = @ \cup {t}] /\ UNCHANGED <<kind, def, cli, ts, calm, run, qcalled, qopen, qdown, qat, xcalled, xopen, xdown>>
Rest == UNCHANGED <<kind, def, thr, cli, calm, qcalled, qopen, qdown, qat, xcalled, xopen, xdown>>

Make(t, at) == /\ ts[t].st = "none"
               /\ ts' = [ts EXCEPT ![t].st = IF qdown THEN "late" ELSE "live", ![t].made = at]
               /\ UNCHANGED run /\ Rest
\* refused only if the queue was asked to shut down, accepted only if it was not down
Made(t, r) == /\ CASE r = "ok"  -> ts[t].st = "live" /\ ts' = ts
                   [] r = "err" -> qcalled /\ ts[t].n = 0 /\ ts' = [ts EXCEPT ![t].st = "refused"]
                   [] OTHER -> FALSE
              /\ UNCHANGED run /\ Rest
\* the earliest moment at which firing number n+1 is due
DueAt(t) == ts[t].made + 1000 * def[t].due + (IF def[t].kind = "per" THEN ts[t].n * 1000 * ts[t].minf ELSE 0)
PlaceOK(x, th) == IF kind[x] = "inline" THEN th \notin cli ELSE th \in thr[x]
Fire(t, th, at) ==
  LET s == ts[t] x == def[t].x IN
  /\ s.st \in {"live", "cancelled"} /\ def[t].kind # "delay"
  /\ def[t].kind = "one" => s.n = 0
  /\ at >= DueAt(t)
  /\ qdown => DueAt(t) <= qat /\ kind[x] # "inline"
  /\ x \in xdown => kind[x] \in {"inline", "manual"}
  /\ s.st = "cancelled" => s.grace > 0
  /\ PlaceOK(x, th) /\ <<t, th>> \notin run
  /\ run' = run \cup {<<t, th>>}
  /\ ts' = [ts EXCEPT ![t].n = @ + 1, ![t].grace = IF s.st = "cancelled" THEN @ - 1 ELSE @]
  /\ Rest
Fired(t, th) == <<t, th>> \in run /\ run' = run \ {<<t, th>>} /\ UNCHANGED ts /\ Rest
\* a delay is over
Woke(t, ok, th, at) ==
  LET x == def[t].x IN
  /\ def[t].kind = "delay" /\ ts[t].st \in {"live", "late"} /\ ts[t].n = 0
  /\ IF ok THEN /\ ts[t].st = "live" /\ at >= DueAt(t) /\ PlaceOK(x, th)
                /\ qdown => DueAt(t) <= qat
           ELSE qcalled \/ x \in xcalled
  /\ ts' = [ts EXCEPT ![t].n = 1, ![t].st = "over"] /\ UNCHANGED run /\ Rest
\* cancelling: what has been handed to the executor may still start, at most
\* one per thread of the executor
Cancel(t) == UNCHANGED tvs
Cancelled(t, full) ==
  /\ full = FALSE
  /\ ts' = IF ts[t].st = "live" THEN [ts EXCEPT ![t].st = "cancelled", ![t].grace = Conc(def[t].x)] ELSE ts
  /\ UNCHANGED run /\ Rest
SetF(t, f) == /\ ts' = [ts EXCEPT ![t].minf = Min2(@, f), ![t].maxf = Max2(@, f)] /\ UNCHANGED run /\ Rest
SetFd(t, r, f) == /\ IF ts[t].st = "live" THEN r = "ok" ELSE r = "empty"
                  /\ ts' = IF r = "ok" THEN [ts EXCEPT ![t].f = f] ELSE ts
                  /\ UNCHANGED run /\ Rest
Get(t, due, f, x) == /\ IF ts[t].st = "live" THEN due = def[t].due /\ f = ts[t].f /\ x
                        ELSE due = -1
                     /\ UNCHANGED tvs
QSd == qcalled' = TRUE /\ qopen' = qopen + 1 /\ UNCHANGED <<kind, def, thr, cli, ts, calm, run, qdown, qat, xcalled, xopen, xdown>>
QSdr(req, at) == /\ req
                 /\ qopen' = qopen - 1
                 /\ qdown' = (qdown \/ qopen = 1) /\ qat' = IF qdown \/ qopen # 1 THEN qat ELSE at
                 /\ UNCHANGED <<kind, def, thr, cli, ts, calm, run, qcalled, xcalled, xopen, xdown>>
XSd(x) == xcalled' = xcalled \cup {x} /\ xopen' = [xopen EXCEPT ![x] = @ + 1] /\ UNCHANGED <<kind, def, thr, cli, ts, calm, run, qcalled, qopen, qdown, qat, xdown>>
XSdr(x) == xopen' = [xopen EXCEPT ![x] = @ - 1] /\ xdown' = (IF xopen[x] = 1 THEN xdown \cup {x} ELSE xdown) /\ UNCHANGED <<kind, def, thr, cli, ts, calm, run, qcalled, qopen, qdown, qat, xcalled>>
\* from now on nothing but time disturbs the timers
Calm(at) == /\ calm' = at /\ ts' = [t \in DOMAIN ts |-> [ts[t] EXCEPT !.n0 = ts[t].n]]
            /\ UNCHANGED <<kind, def, thr, cli, run, qcalled, qopen, qdown, qat, xcalled, xopen, xdown>>
\* long after that: everything due has fired, periodic timers keep going (the
\* margin allows for the time a firing takes)
Settled(at) ==
  /\ \A t \in DOMAIN ts : ts[t].st = "live" /\ ~qcalled /\ def[t].x \notin xcalled =>
       IF def[t].kind = "per"
       THEN ts[t].n >= 1 /\ (ts[t].n - ts[t].n0 + 2) * (1000 * ts[t].maxf + 1000) >= at - calm - 1000 * def[t].due
       ELSE ts[t].n = 1
  /\ UNCHANGED tvs
\* at the very end no coroutine is left waiting
Over == /\ \A t \in DOMAIN ts : def[t].kind = "delay" => ts[t].st \in {"none", "over"}
        /\ run = {} /\ UNCHANGED tvs
=============================================================================
