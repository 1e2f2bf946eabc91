----------------------------- MODULE TaskQTrace -----------------------------
EXTENDS TraceBase
VARIABLES q, pc, enq, out, stop
Threads == 0..3
Q == INSTANCE TaskQ
vars == <<q, pc, enq, out, stop>>
TInit == TBInit /\ Q!QInit
Step == \/ Ev.e = "enq" /\ Q!QEnq(Ev.t, Ev.k)
        \/ Ev.e = "enqd" /\ Q!QEnqd(Ev.t, Ev.k, Ev.ok)
        \/ Ev.e = "work" /\ Q!QWork(Ev.t, Ev.op)
        \/ Ev.e = "workd" /\ Q!QWorkd(Ev.t)
        \/ Ev.e = "run" /\ Q!QRun(Ev.t, Ev.k)
        \/ Ev.e = "ran" /\ Q!QRan(Ev.t, Ev.k)
        \/ Ev.e = "fut" /\ Q!QFut(Ev.k, Ev.o)
        \/ Ev.e = "end" /\ UNCHANGED vars
Out(k) == Scn.out[k]
TNext == \/ Consume /\ Step
         \/ Hidden /\ \E t \in Threads : Q!QEnqIn(t) \/ Q!QTake(t) \/ Q!QNone(t) \/ (pc[t].k > 0 /\ Q!QSet(t, Out(pc[t].k)))
=============================================================================
