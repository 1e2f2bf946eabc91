----------------------------- MODULE StreamTrace -----------------------------
EXTENDS TraceBase, Stream
TInit == TBInit /\ XInit
Step == \/ Ev.e = "write" /\ XWrite(Ev.n, Ev.r, Ev.from)
        \/ Ev.e = "read" /\ XRead(Ev.n, Ev.r, Ev.v)
        \/ Ev.e = "peek" /\ XPeek(Ev.n, Ev.r, Ev.v)
        \/ Ev.e = "rm" /\ XDrop(Ev.n, Ev.r)
        \/ Ev.e = "size" /\ XSize(Ev.n, Ev.empty)
        \/ Ev.e = "clear" /\ XClear
        \/ Ev.e = "psend" /\ XPeerSend(Ev.r, Ev.from)
        \/ Ev.e = "precv" /\ XPeerRecv(Ev.n, Ev.v)
        \/ Ev.e = "pclose" /\ XPeerClose
        \/ Ev.e = "pull" /\ XPull(Ev.r, Ev.d)
        \/ Ev.e = "push" /\ XPush(Ev.r, Ev.d)
        \/ Ev.e = "end" /\ UNCHANGED xvars
TNext == Consume /\ Step
=============================================================================
