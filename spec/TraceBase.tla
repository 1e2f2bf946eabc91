----------------------------- MODULE TraceBase -----------------------------
(* Batch trace validation.  A file of recorded histories (one JSON object   *)
(* per line) is checked in one TLC run: the initial states pick a history,  *)
(* every step consumes one event (or is a hidden step of the specification), *)
(* and a register per history remembers how far it got.  A history is        *)
(* accepted when all of its events have been consumed on some behaviour.     *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos            \* which history, next event
tvars == <<tr, pos>>
Ev  == Traces[tr].ev[pos]
Scn == Traces[tr].scn
More == pos <= Len(Traces[tr].ev)
TBInit == tr \in 1..Len(Traces) /\ pos = 1
Consume == More /\ pos' = pos + 1 /\ tr' = tr
Hidden  == More /\ UNCHANGED tvars
Mark == TLCSet(tr, IF TLCGet(tr) > pos THEN TLCGet(tr) ELSE pos)
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) :
            IF TLCGet(k) > Len(Traces[k].ev) THEN TRUE
            ELSE PrintT(<<"REJECT", k, TLCGet(k)>>)
=============================================================================
