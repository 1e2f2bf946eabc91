---------------------------- MODULE KernelTrace ----------------------------
EXTENDS TraceBase, FiniteSets
Bug == ""
VARIABLES phase, closed, st, alive
K == INSTANCE Kernel
kvars == <<phase, closed, st, alive>>
vars == <<tvars, kvars>>
At == Scn.x
Execs == 0..(4 + Scn.workers + Scn.manuals)
\* inline and manual executors run tasks on threads of the user
Own == {0, 2, 3, 4} \cup 5..(4 + Scn.workers)
TInit == TBInit /\ K!KInit(1..Len(Scn.x))
Step ==
  CASE Ev.e = "opt" -> Ev.cpu = Scn.cpu /\ Ev.bg = Scn.bg /\ Ev.wc = Scn.wc /\ Ev.wb = Scn.wb /\ Ev.wt = Scn.wt /\ UNCHANGED kvars
    [] Ev.e = "same" -> Ev.r /\ UNCHANGED kvars
    [] Ev.e = "post" -> K!Post(Ev.k)
    [] Ev.e = "posted" -> K!Posted(Ev.k, Ev.ok)
    [] Ev.e = "run" -> K!Run(Ev.k, At[Ev.k] \in Own)
    [] Ev.e = "ran" -> K!Ran(Ev.k)
    [] Ev.e = "ts" -> K!ThreadOn(Ev.th)
    [] Ev.e = "te" -> K!ThreadOff(Ev.th)
    [] Ev.e = "ending" -> K!End
    [] Ev.e = "ended" -> K!Ended(Execs, Own, At)
    [] Ev.e = "shut" -> Ev.r /\ phase = "gone" /\ UNCHANGED kvars
    [] Ev.e = "quiet" -> phase = "gone" /\ (\A k \in DOMAIN st : st[k].run # "on") /\ UNCHANGED kvars
    [] Ev.e = "end" -> UNCHANGED kvars
    [] OTHER -> FALSE
TNext == \/ Consume /\ Step
         \/ Hidden /\ \E k \in DOMAIN st : K!Take(k, {At[k]})
=============================================================================
