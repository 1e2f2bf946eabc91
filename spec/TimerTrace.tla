------------------------------ MODULE TimerTrace ------------------------------
EXTENDS TraceBase, Timer
vars == <<tvars, tvs>>
TInit == TBInit /\ TInit0([x \in 0..(Len(Scn.ex) - 1) |-> Scn.ex[x + 1]], Scn.d)
LastF == LET S == {k \in 1..(pos - 1) : Traces[tr].ev[k].e = "setf" /\ Traces[tr].ev[k].t = Ev.t} IN
         Traces[tr].ev[CHOOSE k \in S : \A j \in S : j <= k].f
Step == \/ Ev.e = "ht" /\ Client(Ev.th)
        \/ Ev.e = "thr" /\ Thr(Ev.x, Ev.th)
        \/ Ev.e = "mk" /\ Make(Ev.t, Ev.at)
        \/ Ev.e = "mkd" /\ Made(Ev.t, Ev.r)
        \/ Ev.e = "fire" /\ Ev.arg = Ev.t /\ Fire(Ev.t, Ev.th, Ev.at)
        \/ Ev.e = "fired" /\ Fired(Ev.t, Ev.th)
        \/ Ev.e = "woke" /\ Woke(Ev.t, Ev.ok, Ev.th, Ev.at)
        \/ Ev.e = "cancel" /\ Cancel(Ev.t)
        \/ Ev.e = "cancelled" /\ Cancelled(Ev.t, Ev.full)
        \/ Ev.e = "setf" /\ SetF(Ev.t, Ev.f)
        \/ Ev.e = "setfd" /\ SetFd(Ev.t, Ev.r, LastF)
        \/ Ev.e = "get" /\ Get(Ev.t, Ev.due, Ev.f, Ev.x)
        \/ Ev.e = "qsd" /\ QSd
        \/ Ev.e = "qsdr" /\ QSdr(Ev.req, Ev.at)
        \/ Ev.e = "xsd" /\ XSd(Ev.x)
        \/ Ev.e = "xsdr" /\ XSdr(Ev.x)
        \/ Ev.e = "calm" /\ Calm(Ev.at)
        \/ Ev.e = "settled" /\ Settled(Ev.at)
        \/ Ev.e = "over" /\ Over
        \/ Ev.e = "end" /\ UNCHANGED tvs
TNext == Consume /\ Step
=============================================================================
