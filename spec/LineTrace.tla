----------------------------- MODULE LineTrace -----------------------------
EXTENDS TraceBase, Line
TInit == TBInit /\ LInit
Step == \/ Ev.e = "enc" /\ LEncode(Ev.kind, Ev.p, Ev.v)
        \/ Ev.e = "raw" /\ LRawBytes(Ev.v)
        \/ Ev.e = "feed" /\ LFeed(Ev.n)
        \/ Ev.e = "dec" /\ Ev.rd /\ LDecode(Scn.maxlen, Ev.r, Ev.left, Ev.kind, Ev.v)
        \/ Ev.e = "end" /\ UNCHANGED lvars
TNext == Consume /\ Step
=============================================================================
