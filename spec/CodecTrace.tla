----------------------------- MODULE CodecTrace -----------------------------
EXTENDS TraceBase, Codec
TInit == TBInit /\ DInit
Step == \/ Ev.e = "enc" /\ DEncode(Ev.id, Ev.from, Ev.n, Ev.v)
        \/ Ev.e = "raw" /\ DRawBytes(Ev.v)
        \/ Ev.e = "feed" /\ DFeed(Ev.n)
        \/ Ev.e = "dec" /\ Ev.rd /\ DDecode(Scn.maxid, Scn.maxlen, Ev.r, Ev.left, Ev.id, Ev.v, Ev.kind)
        \/ Ev.e = "end" /\ UNCHANGED dvars
TNext == Consume /\ Step
=============================================================================
