------------------------------ MODULE SpscTrace ------------------------------
EXTENDS TraceBase, Spsc
TInit == TBInit /\ SInit(Scn.cap)
Step == \/ Ev.e = "call" /\ SCall(Ev.t, Ev.op, Ev.n, Ev.full, Ev.ro)
        \/ Ev.e = "ret" /\ SRet(Ev.t, Ev.r, Ev.v)
        \/ Ev.e = "end" /\ UNCHANGED svars
TNext == (Consume /\ Step) \/ (Hidden /\ \E t \in {1, 2} : SLook(t) \/ SEff(t))
=============================================================================
