------------------------------ MODULE DirsTrace -------------------------------
EXTENDS TraceBase, Dirs
TInit == TBInit /\ DInit
Step == \/ Ev.e = "make" /\ DMake(Ev.p, Ev.ok = "yes")
        \/ Ev.e = "refused" /\ Ev.ok = "no" /\ UNCHANGED dvars
        \/ Ev.e = "file" /\ DFile(Ev.p, Ev.ok = "yes")
        \/ Ev.e = "look" /\ Ev.r = Look(Ev.p) /\ (Ev.r = "dir" => Ev.mode = "755") /\ UNCHANGED dvars
        \/ Ev.e = "end" /\ UNCHANGED dvars
TNext == Consume /\ Step
=============================================================================
