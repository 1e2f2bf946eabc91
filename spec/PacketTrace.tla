----------------------------- MODULE PacketTrace -----------------------------
EXTENDS TraceBase, Packet
TInit == TBInit /\ KInit
Step == \/ Ev.e = "put" /\ Ev.k = "raw" /\ KPutRaw(Ev.v, Ev.r)
        \/ Ev.e = "put" /\ Ev.k = "str" /\ KPutStr(Ev.v, Ev.r)
        \/ Ev.e = "num" /\ KNum(Ev.n, Ev.r, Ev.v)
        \/ Ev.e = "str" /\ KStr(Ev.r, Ev.d, Ev.v)
        \/ Ev.e = "raw" /\ KRaw(Ev.n, Ev.r, Ev.v)
        \/ Ev.e = "rm" /\ KRemove(Ev.n, Ev.r)
        \/ Ev.e = "flag" /\ KFlag(Ev.f, Ev.on)
        \/ Ev.e = "id" /\ KId(Ev.id)
        \/ Ev.e = "st" /\ KState(Ev.size, Ev.off, Ev.rq, Ev.rs, Ev.nt, Ev.id)
        \/ Ev.e = "data" /\ KData(Ev.v)
        \/ Ev.e = "end" /\ UNCHANGED kvars
TNext == Consume /\ Step
=============================================================================
