----------------------------- MODULE ManualTrace -----------------------------
EXTENDS TraceBase, Manual
vars == <<tvars, mvars>>
TInit == TBInit /\ MInit(0..Scn.nt)
Step == \/ Ev.e = "call" /\ Call(Ev.t, Ev.op, Ev.n, Ev.w, Ev.ks)
        \/ Ev.e = "ret"  /\ Ret(Ev.t, Ev.r, Ev.d)
        \/ Ev.e = "run"  /\ Run(Ev.t, Ev.k)
        \/ Ev.e = "quiet" /\ Quiet /\ UNCHANGED mvars
        \/ Ev.e = "end"  /\ Finished /\ UNCHANGED mvars
TNext == \/ Consume /\ Step
         \/ Hidden /\ \E t \in DOMAIN pc : Hid(t)
=============================================================================
