------------------------------- MODULE TimerMC -------------------------------
(* Timers as a closed system, with a clock that only moves forward.             *)
EXTENDS Timer, TLC
CONSTANTS HORIZON
VARIABLES now, lastc
vars == <<tvs, now, lastc>>
K == [x \in {0, 1} |-> IF x = 0 THEN "inline" ELSE "worker"]
D == <<[x |-> 0, kind |-> "one", due |-> 1, f |-> 0], [x |-> 1, kind |-> "per", due |-> 0, f |-> 1], [x |-> 1, kind |-> "delay", due |-> 1, f |-> 0]>>
Init == TInit0(K, D) /\ now = 0 /\ lastc = [t \in 1..3 |-> -1]
Th == {1, 2, 3}   \* client, timer thread, worker
Next == \/ now < HORIZON /\ now' = now + 1000 /\ UNCHANGED <<tvs, lastc>>
        \/ UNCHANGED <<now, lastc>> /\
             \/ Client(1) /\ cli = {}
             \/ Thr(1, 3) /\ thr[1] = {}
             \/ \E t \in 1..3 : \/ cli # {} /\ Make(t, now)
                               \/ (t # 3 /\ ts[t].st = "live" /\ Made(t, "ok")) \/ (t # 3 /\ ts[t].st = "late" /\ Made(t, "err"))
                               \/ \E th \in Th : (ts[t].n < 3 /\ Fire(t, th, now)) \/ Fired(t, th) \/ (\E ok \in BOOLEAN : Woke(t, ok, th, now))
                               \/ (t = 2 /\ ts[2].f = 1 /\ SetF(t, 2)) \/ (t = 2 /\ ts[2].maxf = 2 /\ SetFd(t, "ok", 2))
             \/ qopen = 0 /\ ~qcalled /\ QSd
             \/ qopen > 0 /\ QSdr(TRUE, now)
             \/ \E x \in {0, 1} : (x \notin xcalled /\ XSd(x)) \/ (xopen[x] > 0 /\ XSdr(x))
        \/ \E t \in 1..2 : cli # {} /\ ts[t].st = "live" /\ Cancelled(t, FALSE) /\ lastc' = [lastc EXCEPT ![t] = ts[t].n] /\ UNCHANGED now
Spec == Init /\ [][Next]_vars
NeverEarly == \A t \in 1..3 : ts[t].n >= 1 => (now >= ts[t].made + 1000 * D[t].due \/ ts[t].st = "over")
OneShotOnce == ts[1].n <= 1 /\ ts[3].n <= 1
Bounded == ts[2].n >= 1 => (ts[2].n - 1) * 1000 * ts[2].minf <= now - ts[2].made
QuietAfterCancel == \A t \in 1..2 : lastc[t] >= 0 => ts[t].n <= lastc[t] + 1
OnOwnThread == \A r \in run : r[2] # 1
LateNeverFires == \A t \in 1..3 : ts[t].st \in {"late", "refused"} => ts[t].n = 0
=============================================================================
