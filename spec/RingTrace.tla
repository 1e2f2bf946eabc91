------------------------------ MODULE RingTrace ------------------------------
EXTENDS TraceBase, Ring
TInit == TBInit /\ RInit(Scn.cap)
Step == \/ Ev.e = "ins" /\ Write(1, TRUE, Ev.r, Scn.dyn)
        \/ Ev.e = "write" /\ Write(Ev.n, Ev.full, Ev.r, Scn.dyn)
        \/ Ev.e = "read" /\ Read(Ev.n, Ev.r, Ev.v, Ev.ro)
        \/ Ev.e = "rm" /\ Drop(Ev.n, Ev.r)
        \/ Ev.e = "peek" /\ Peek(Ev.n, Ev.ok, Ev.v)
        \/ Ev.e = "at" /\ At(Ev.n, Ev.ok, Ev.v)
        \/ Ev.e = "clear" /\ Clear(Ev.hard, Scn.cap, Scn.dyn)
        \/ Ev.e = "st" /\ Status(Ev.len, Ev.room, Ev.size, Ev.empty, Ev.full)
        \/ Ev.e = "end" /\ UNCHANGED rvars
TNext == Consume /\ Step
=============================================================================
