-------------------------------- MODULE LogMC --------------------------------
EXTENDS Log, FiniteSets
CONSTANT N
VARIABLES nx, before, seen     \* next record, records returned before the stop, last reading
vars == <<lvars, nx, before, seen>>
Init == LInit /\ nx = 1 /\ before = {} /\ seen = <<>>
Next == \/ \E w \in Writers, on \in BOOLEAN : nx <= N /\ LCall(w, nx, on) /\ nx' = nx + 1 /\ UNCHANGED <<before, seen>>
        \/ \E w \in Writers : LLin(w) /\ UNCHANGED <<nx, before, seen>>
        \/ \E w \in Writers : LRet(w, pend[w].k) /\ UNCHANGED <<nx, seen>>
             /\ before' = IF stop = "no" /\ \E i \in 1..Len(buf) : buf[i] = pend[w].k THEN before \cup {pend[w].k} ELSE before
        \/ LStop /\ UNCHANGED <<nx, before, seen>>
        \/ LStopped /\ UNCHANGED <<nx, before, seen>>
        \/ \E m \in 0..Len(buf), all \in BOOLEAN : LRead(SubSeq(buf, 1, m), all) /\ seen' = SubSeq(buf, 1, m) /\ UNCHANGED <<nx, before>>
Once == \A i, j \in 1..Len(buf) : buf[i] = buf[j] => i = j
Grows == [][IsPrefix(seen) /\ Len(seen') >= Len(seen)]_vars
\* a reading after the stop holds all that had returned before it
Kept == [][stop = "done" /\ seen' # seen => \A k \in before : \E i \in 1..Len(seen') : seen'[i] = k]_vars
=============================================================================
