----------------------------- MODULE ResumeTrace -----------------------------
EXTENDS TraceBase, Resume
vars == <<tvars, pvars>>
TInit == TBInit /\ PInit([x \in 0..(Len(Scn.ex) - 1) |-> Scn.ex[x + 1]], [c \in 0..(Len(Scn.cos) - 1) |-> Scn.cos[c + 1]])
Step == \/ Ev.e = "ht" /\ Client(Ev.th)
        \/ Ev.e = "thr" /\ Thr(Ev.x, Ev.th)
        \/ Ev.e = "cstart" /\ Start(Ev.c, Ev.x, Ev.th)
        \/ Ev.e = "hop" /\ HopTo(Ev.c, Ev.x, Ev.th)
        \/ Ev.e = "on" /\ On(Ev.c, Ev.x, Ev.th)
        \/ Ev.e = "err" /\ ErrOn(Ev.c, Ev.x, Ev.th)
        \/ Ev.e = "cfin" /\ Fin(Ev.c)
        \/ Ev.e = "sd" /\ Sd(Ev.x)
        \/ Ev.e = "sdr" /\ Sdr(Ev.x)
        \/ Ev.e = "settled" /\ Settled
        \/ Ev.e = "got" /\ Got(Ev.c, Ev.r)
        \/ Ev.e = "end" /\ UNCHANGED pvars
TNext == Consume /\ Step
=============================================================================
