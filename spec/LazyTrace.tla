------------------------------ MODULE LazyTrace ------------------------------
EXTENDS TraceBase, Lazy
vars == <<tvars, lvars>>
TInit == TBInit /\ LInit(Scn.defs)
Outcome(i) == (IF defs[i].thr THEN "exc" ELSE "val") \o ToString(IF Scn.void /\ ~defs[i].thr THEN 0 ELSE i)
Step == \/ Ev.e = "call" /\ LCall(Ev.op, Ev.i)
        \/ Ev.e = "lstart" /\ LStart(Ev.i)
        \/ Ev.e = "lfin" /\ LFin(Ev.i)
        \/ Ev.e = "ret" /\ LRet(Ev.op, Ev.i, Ev.r, Outcome(Ev.i))
        \/ Ev.e = "over" /\ Ev.done /\ cur = NoOp /\ stack = <<>> /\ UNCHANGED lvars
        \/ Ev.e = "live" /\ Ev.n = 0 /\ UNCHANGED lvars
        \/ Ev.e = "end" /\ cur = NoOp /\ stack = <<>> /\ UNCHANGED lvars
TNext == Consume /\ Step
=============================================================================
