----------------------------- MODULE TaskObjTrace -----------------------------
EXTENDS TraceBase, TaskObj
vars == <<tvars, ovars>>
TInit == TBInit /\ OInit
Plain == {Scn.plain[i] : i \in 1..Len(Scn.plain)}
Step == \/ Ev.e = "call" /\ OCall(Ev.op, Ev.a, Ev.b, Ev.k, Plain)
        \/ Ev.e \in {"run", "die"} /\ ODo(Ev.e, Ev.k)
        \/ Ev.e = "ret" /\ ORet(Ev.r)
        \/ Ev.e = "end" /\ res = "none" /\ (\A o \in Objects : slot[o] = 0) /\ UNCHANGED ovars
TNext == Consume /\ Step
=============================================================================
