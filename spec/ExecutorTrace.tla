--------------------------- MODULE ExecutorTrace ---------------------------
EXTENDS TraceBase, Integers, FiniteSets, SequencesExt
VARIABLES kindOf, task, st, where, by, pred, late, called, open, down, after, clients, loopers, owned
All == {"once", "order", "place", "shutdown"}
Aspects == CASE IOEnv.ASPECTS = "all" -> All
             [] IOEnv.ASPECTS = "order+place" -> {"order", "place"}
             [] OTHER -> {IOEnv.ASPECTS}
INSTANCE Executor
vars == <<tvars, kindOf, task, st, where, by, pred, late, called, open, down, after, clients, loopers, owned>>
TInit == /\ TBInit
         /\ EInit([x \in 0..(Len(Scn.ex) - 1) |-> Scn.ex[x + 1]], [k \in 1..Len(Scn.tasks) |-> Scn.tasks[k]])
Step == \/ Ev.e = "ht"   /\ Client(Ev.th)
        \/ Ev.e = "loop" /\ Looper(Ev.th, Ev.x)
        \/ Ev.e = "sub"  /\ Submit(Ev.th, Ev.x, Ev.ks)
        \/ Ev.e = "acc"  /\ Accept(Ev.th, Ev.ks)
        \/ Ev.e = "rej"  /\ Refuse(Ev.th, Ev.ks)
        \/ Ev.e = "run"  /\ Run(Ev.k, Ev.th)
        \/ Ev.e = "fin"  /\ Finish(Ev.k, Ev.th)
        \/ Ev.e = "settled" /\ Settled
        \/ Ev.e = "sd"   /\ Shutdown(Ev.x)
        \/ Ev.e = "sdr"  /\ ShutdownDone(Ev.x, Ev.req)
        \/ Ev.e = "got"  /\ Got(Ev.k, Ev.r)
        \/ Ev.e = "live" /\ ("once" \in Aspects => Ev.n = 0) /\ UNCHANGED <<kindOf, task, st, where, by, pred, late, called, open, down, after, clients, loopers, owned>>
        \/ Ev.e = "end"  /\ Finished
TNext == Consume /\ Step
=============================================================================
