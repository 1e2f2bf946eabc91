------------------------------ MODULE MemTrace ------------------------------
EXTENDS TraceBase
VARIABLES area, live, pc
Threads == 0..3
Leaves == 1..3
M == INSTANCE Mem
vars == <<area, live, pc>>
TInit == TBInit /\ M!MInit
Os == Scn.os
Step == \/ Ev.e = "leaf" /\ M!MArea(Ev.l, Ev.lo, Ev.hi)
        \/ Ev.e = "get" /\ M!MCall(Ev.t, Ev.n, Ev.b)
        \/ Ev.e = "got" /\ Ev.al /\ M!MGot(Ev.t, Ev.a) /\ (live'[Ev.b].l = 0 => Os)
        \/ Ev.e = "none" /\ Ev.how = (IF Scn.raise THEN "throw" ELSE "null") /\ ~Os /\ M!MNone(Ev.t)
        \/ Ev.e = "huge" /\ Ev.how = "null" /\ M!MHuge(Ev.t)
        \/ Ev.e = "put" /\ Ev.same /\ M!MFree(Ev.t, Ev.b)
        \/ Ev.e = "putd" /\ Ev.how = "ok" /\ M!MFreed(Ev.t)
        \/ Ev.e = "chk" /\ UNCHANGED vars
             /\ Ev.r = IF M!MInside(Ev.b, Ev.off, Ev.n) THEN "in" ELSE IF Scn.raise THEN "throw" ELSE "out"
        \/ Ev.e = "foreign" /\ UNCHANGED vars /\ Ev.r = (IF Scn.raise THEN "throw" ELSE "ok")
        \/ Ev.e = "end" /\ UNCHANGED vars
Hid == \E t \in Threads : \/ \E l \in DOMAIN area : M!MLook(t, l)
                          \/ \E l \in DOMAIN area : M!MCut(t, l)
                          \/ M!MBack(t)
TNext == (Consume /\ Step) \/ (Hidden /\ Hid)
=============================================================================
