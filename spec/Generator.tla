------------------------------- MODULE Generator -------------------------------
(* A generator computes one value per step, only when asked for it; the caller   *)
(* sees the values in order, then the end or the exception; dropping it releases *)
(* the suspended body exactly once.                                              *)
EXTENDS Integers
VARIABLES n, thr, take, made, seen, ph, released
gvars == <<n, thr, take, made, seen, ph, released>>
GInit(a, b, c) == n = a /\ thr = b /\ take = c /\ made = 0 /\ seen = 0 /\ ph = "new" /\ released = FALSE
GNew == ph = "new" /\ ph' = "idle" /\ UNCHANGED <<n, thr, take, made, seen, released>>
GMake(v) == /\ ph = "idle" /\ made = seen /\ seen < take /\ v = made + 1 /\ v <= n
            /\ made' = v /\ ph' = (IF v = thr THEN "threw" ELSE "idle") /\ UNCHANGED <<n, thr, take, seen, released>>
GVal(v) == /\ ph = "idle" /\ made = seen + 1 /\ v = made /\ seen' = v
           /\ UNCHANGED <<n, thr, take, made, ph, released>>
GEnd == ph = "idle" /\ made = n /\ seen = n /\ take > n /\ ph' = "ended" /\ UNCHANGED <<n, thr, take, made, seen, released>>
GDone == /\ ~released /\ released' = TRUE
         /\ ph \in {"threw", "ended", "res"}
         /\ UNCHANGED <<n, thr, take, made, seen, ph>>
GRes(r) == /\ CASE r = "exc" -> ph = "threw" /\ released
                [] r = "end" -> ph = "ended" /\ released
                [] r = "stopped" -> ph = "idle" /\ seen = take /\ made = seen /\ ~released
                [] OTHER -> FALSE
           /\ ph' = "res" /\ UNCHANGED <<n, thr, take, made, seen, released>>
\* a body that was never started holds nothing
GOver == ph = "res" /\ ((made = 0 /\ take = 0) \/ released) /\ UNCHANGED gvars
=============================================================================
