---------------------------- MODULE ResultTrace ----------------------------
EXTENDS Result, TraceBase
vars == <<tvars, rvars>>
TInit == TBInit /\ RInit
Step == \/ Ev.e = "pcall" /\ ProdCall(Scn.out)
        \/ Ev.e = "pret"  /\ ProdRet
        \/ Ev.e = "call"  /\ Call(Ev.l, Ev.op, Ev.a)
        \/ Ev.e = "ret"   /\ Ret(Ev.l, Ev.op, Ev.r, Ev.d)
        \/ Ev.e = "fn"    /\ pst = "busy" /\ UNCHANGED rvars    \* the producing function ran before its outcome existed
        \/ Ev.e = "bad"   /\ pst = "busy" /\ Ev.r = "thrown" /\ UNCHANGED rvars  \* no exception is no outcome
        \/ Ev.e = "live"  /\ Ev.n = 0 /\ UNCHANGED rvars             \* values and exceptions are gone
        \/ Ev.e = "end"   /\ Finished /\ UNCHANGED rvars
TNext == \/ Consume /\ Step
         \/ Hidden /\ Publish
TSpec == TInit /\ [][TNext]_vars
=============================================================================
