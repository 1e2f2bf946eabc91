------------------------------ MODULE WhenTrace ------------------------------
EXTENDS TraceBase, Combine
vars == <<tvars, cvars>>
TInit == TBInit /\ CInit(Scn.outs)
Step == \/ Ev.e = "pcall" /\ ProdCall(Ev.p)
        \/ Ev.e = "pret"  /\ ProdRet(Ev.p)
        \/ Ev.e = "wth"   /\ WorkerIs(Ev.on)
        \/ Ev.e = "call"  /\ GCall(Ev.op, Ev.n)
        \/ Ev.e = "ret"   /\ GRet(Ev.op, Ev.n, Ev.i, Ev.on, Scn.ex)
        \/ Ev.e = "got"   /\ GGot(Ev.i, Ev.st, Ev.r)
        \/ Ev.e = "over"  /\ GOver(Ev.ok)
        \/ Ev.e = "live"  /\ Ev.n = 0 /\ UNCHANGED cvars
        \/ Ev.e = "end"   /\ UNCHANGED cvars
TNext == \/ Consume /\ Step
         \/ Hidden /\ \E p \in DOMAIN outs : Publish(p)
=============================================================================
