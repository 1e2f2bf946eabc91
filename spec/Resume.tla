-------------------------------- MODULE Resume --------------------------------
(* Coroutines that hop between executors.  After a hop the coroutine runs on   *)
(* a thread of the executor it asked for, or is told that the executor is shut *)
(* down; whichever way, it always goes on and its outcome reaches its result.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kinds,   \* [executor -> kind]
          cos,     \* [coroutine -> [start, thr, n]]
          thr,     \* [executor -> its threads]
          ht,      \* client threads
          cs,      \* [coroutine -> [ph, x, th, late]]
          called, down
pvars == <<kinds, cos, thr, ht, cs, called, down>>
PInit(k, c) == /\ kinds = k /\ cos = c /\ thr = [x \in DOMAIN k |-> {}] /\ ht = {}
               /\ cs = [i \in DOMAIN c |-> [ph |-> "new", x |-> -1, th |-> -1, late |-> FALSE]]
               /\ called = {} /\ down = {}
Thr(x, t)  == thr' = [thr EXCEPT ![x] = @ \cup {t}] /\ UNCHANGED <<kinds, cos, ht, cs, called, down>>
Client(t)  == ht' = ht \cup {t} /\ UNCHANGED <<kinds, cos, thr, cs, called, down>>
Go(c, x, t, ph) == cs' = [cs EXCEPT ![c] = [ph |-> ph, x |-> x, th |-> t, late |-> x \in down]]
Start(c, x, t) == /\ cs[c].ph = "new" /\ x = cos[c].start
                  /\ Go(c, x, t, IF x = -1 THEN "run" ELSE "starting")
                  /\ UNCHANGED <<kinds, cos, thr, ht, called, down>>
HopTo(c, x, t) == /\ cs[c].ph = "run" /\ Go(c, x, t, "hopping")
                  /\ UNCHANGED <<kinds, cos, thr, ht, called, down>>
\* the coroutine goes on, on a thread of the right executor ...
Place(x, t, from) == IF kinds[x] = "inline" THEN t = from ELSE t \in thr[x]
On(c, x, t) == /\ cs[c].ph \in {"hopping", "starting"} /\ cs[c].x = x
               /\ Place(x, t, cs[c].th) /\ ~cs[c].late
               /\ cs' = [cs EXCEPT ![c].ph = "run", ![c].th = t]
               /\ UNCHANGED <<kinds, cos, thr, ht, called, down>>
\* ... or with an error, but only if that executor was asked to shut down
ErrOn(c, x, t) == /\ cs[c].ph = "hopping" /\ cs[c].x = x /\ x \in called
                  /\ cs' = [cs EXCEPT ![c].ph = "run", ![c].th = t]
                  /\ UNCHANGED <<kinds, cos, thr, ht, called, down>>
Fin(c) == /\ cs[c].ph = "run" /\ cs' = [cs EXCEPT ![c].ph = "fin"]
          /\ UNCHANGED <<kinds, cos, thr, ht, called, down>>
Sd(x)  == called' = called \cup {x} /\ UNCHANGED <<kinds, cos, thr, ht, cs, down>>
Sdr(x) == down' = down \cup {x} /\ UNCHANGED <<kinds, cos, thr, ht, cs, called>>
Settled == (\A c \in DOMAIN cs : cs[c].ph = "fin" \/ (cs[c].ph = "starting" /\ cs[c].x \in called)) /\ UNCHANGED pvars
Got(c, r) == /\ CASE r = "val" -> cs[c].ph = "fin" /\ ~cos[c].thr
                  [] r = "exc" -> cs[c].ph = "fin" /\ cos[c].thr
                  [] r = "broken" -> cs[c].ph = "starting" /\ cs[c].x \in called
                  [] OTHER -> FALSE
             /\ UNCHANGED pvars
=============================================================================
