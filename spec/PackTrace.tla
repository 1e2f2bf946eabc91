----------------------------- MODULE PackTrace -----------------------------
EXTENDS TraceBase, Pack
TInit == TBInit /\ PInit
Step == \/ Ev.e = "pack" /\ PPack(Ev.t, Ev.v, Ev.end, Ev.b)
        \/ Ev.e = "cut" /\ PCut(Ev.n)
        \/ Ev.e = "bytes" /\ PBytes(Ev.n)
        \/ Ev.e = "unpack" /\ PUnpack(Ev.t, Ev.v, Ev.err)
        \/ Ev.e = "mem" /\ ~Ev.big /\ UNCHANGED pvars
        \/ Ev.e = "end" /\ UNCHANGED pvars
TNext == Consume /\ Step
=============================================================================
