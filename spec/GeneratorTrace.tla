---------------------------- MODULE GeneratorTrace ----------------------------
EXTENDS TraceBase, Generator
vars == <<tvars, gvars>>
TInit == TBInit /\ GInit(Scn.n, Scn.thr, Scn.take)
Step == \/ Ev.e = "gnew" /\ Ev.empty /\ GNew
        \/ Ev.e = "gmake" /\ GMake(Ev.v)
        \/ Ev.e = "gval" /\ GVal(Ev.v)
        \/ Ev.e = "gend" /\ GEnd
        \/ Ev.e = "gdone" /\ GDone
        \/ Ev.e = "gres" /\ GRes(Ev.r)
        \/ Ev.e = "over" /\ GOver
        \/ Ev.e = "live" /\ Ev.n = 0 /\ UNCHANGED gvars
        \/ Ev.e = "end" /\ UNCHANGED gvars
TNext == Consume /\ Step
=============================================================================
