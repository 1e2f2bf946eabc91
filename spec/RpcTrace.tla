------------------------------- MODULE RpcTrace -------------------------------
EXTENDS TraceBase, Integers, FiniteSets
VARIABLES call, ran, on, ended, stp
INSTANCE Rpc
vars == <<tvars, call, ran, on, ended, stp>>
TInit == TBInit /\ RInit(Scn.nt)
Tmo(t) == call[t].s = "C" /\ Scn.tmo[call[t].c] > 0
Step == \/ Ev.e = "ask" /\ Ask(Ev.t, Ev.s, Ev.c, Ev.k, Ev.f)
        \/ Ev.e = "askd" /\ Askd(Ev.t, Ev.ok)
        \/ Ev.e = "run" /\ Run(Ev.t, Ev.n, Ev.good)
        \/ Ev.e = "rund" /\ Rund(Ev.t)
        \/ Ev.e = "ret" /\ Ret(Ev.t, Ev.r, Ev.n, Ev.good, Tmo(Ev.t))
        \/ Ev.e = "shut" /\ Shut(Ev.c)
        \/ Ev.e = "stop" /\ Stop(Ev.s)
        \/ Ev.e = "stopd" /\ Stopd(Ev.s)
        \/ Ev.e = "settled" /\ Settled
        \/ Ev.e = "over" /\ Finish
        \/ Ev.e = "end" /\ UNCHANGED <<call, ran, on, ended, stp>>
TNext == Consume /\ Step
=============================================================================
