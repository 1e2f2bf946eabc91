------------------------------ MODULE LogTrace ------------------------------
EXTENDS TraceBase
VARIABLES buf, disk, pend, stop, mark
Writers == 0..4
L == INSTANCE Log
TInit == TBInit /\ L!LInit
vars == <<buf, disk, pend, stop, mark>>
Step == \/ Ev.e = "app" /\ L!LCall(Ev.t, Ev.k, Ev.on)
        \/ Ev.e = "apd" /\ L!LRet(Ev.t, Ev.k)
        \/ Ev.e = "stop" /\ L!LStop
        \/ Ev.e = "stopd" /\ L!LStopped
        \/ Ev.e = "read" /\ Ev.ok /\ L!LRead(Ev.v, Ev.all)
        \/ Ev.e = "end" /\ UNCHANGED vars
TNext == (Consume /\ Step) \/ (Hidden /\ \E w \in Writers : L!LLin(w))
=============================================================================
