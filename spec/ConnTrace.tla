------------------------------ MODULE ConnTrace ------------------------------
EXTENDS TraceBase, Integers, FiniteSets
VARIABLES cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, nm, lost
Asp == IF IOEnv.ASPECTS \in {"data", "life"} THEN {IOEnv.ASPECTS} ELSE {"data", "life"}
INSTANCE Conn
vars == <<tvars, cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, nm, lost>>
Kind == [k \in 1..Len(Scn.kind) |-> Scn.kind[k]]
Size == [t \in 1..Len(Scn.size) |-> Scn.size[t]]
TInit == TBInit /\ CInit(1..Len(Scn.kind), 1..Len(Scn.size))
Step == \/ Ev.e = "conn" /\ Conn(Ev.c, Scn.smax, Scn.cmax, Kind)
        \/ Ev.e = "connd" /\ Connd(Ev.c, Ev.ok, Kind)
        \/ Ev.e = "up" /\ Up(Ev.s, Ev.c, Scn.smax)
        \/ Ev.e = "down" /\ Down(Ev.s, Ev.c)
        \/ Ev.e = "shut" /\ Shut(Ev.s, Ev.c)
        \/ Ev.e = "stop" /\ Stop(Ev.s)
        \/ Ev.e = "stopd" /\ Stopd(Ev.s)
        \/ Ev.e = "snd" /\ Snd(Ev.s, Ev.c, Ev.t)
        \/ Ev.e = "sndd" /\ Sndd(Ev.t, Ev.ok)
        \/ Ev.e = "bc" /\ Bc(Ev.s, Ev.t, Kind)
        \/ Ev.e = "bcd" /\ Sndd(Ev.t, TRUE)
        \/ Ev.e = "pk" /\ Pk(Ev.s, Ev.c, Ev.t, Ev.good, Kind)
        \/ Ev.e = "pkd" /\ Pkd(Ev.s, Ev.c)
        \/ Ev.e = "name" /\ Name(Ev.s, Ev.c, Ev.v)
        \/ Ev.e = "setname" /\ SetName(Ev.s, Ev.c, Ev.v)
        \/ Ev.e = "settled" /\ Settled(Size, Kind, Scn.smax, Scn.cmax, Ev.ss, Ev.sr, Ev.cs, Ev.cr, Ev.sf, Ev.cf)
        \/ Ev.e = "over" /\ Over
        \/ Ev.e = "end" /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, nm, lost>>
TNext == Consume /\ Step
=============================================================================
