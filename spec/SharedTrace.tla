----------------------------- MODULE SharedTrace -----------------------------
EXTENDS TraceBase, Combine
vars == <<tvars, cvars>>
TInit == TBInit /\ CInit(Scn.outs)
Step == \/ Ev.e = "pcall" /\ ProdCall(Ev.p)
        \/ Ev.e = "pret"  /\ ProdRet(Ev.p)
        \/ Ev.e = "call"  /\ SCall(Ev.k, Ev.op, Ev.a)
        \/ Ev.e = "ret"   /\ SRet(Ev.k, Ev.r, Ev.d)
        \/ Ev.e = "live"  /\ Ev.n = 0 /\ UNCHANGED cvars
        \/ Ev.e = "end"   /\ SFinished /\ UNCHANGED cvars
TNext == \/ Consume /\ Step
         \/ Hidden /\ Publish(1)
=============================================================================
