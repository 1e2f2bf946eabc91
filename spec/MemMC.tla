-------------------------------- MODULE MemMC --------------------------------
EXTENDS Mem, TLC
CONSTANTS N, Size, Max     \* blocks ever, leaf size, largest request
VARIABLES nb
vars == <<mvars, nb>>
Init == /\ area = [l \in Leaves |-> [lo |-> 100 * l, hi |-> 100 * l + Size]] /\ live = [b \in {} |-> 0]
        /\ pc = [t \in Threads |-> MIdle] /\ nb = 1
Addr == {100 * l + 16 * k : l \in Leaves \cup {9}, k \in 0..(Size \div 16)}
Next == \/ \E t \in Threads, n \in 0..Max : nb <= N /\ MCall(t, 16 * n, nb) /\ nb' = nb + 1
        \/ UNCHANGED nb /\ \E t \in Threads :
             \/ \E l \in Leaves : MLook(t, l) \/ MCut(t, l)
             \/ \E a \in Addr : MGot(t, a)
             \/ MNone(t) \/ MFreed(t) \/ MBack(t)
             \/ \E b \in DOMAIN live : MFree(t, b)
Apart == \A b, c \in DOMAIN live : b # c => \A x \in live[b].a .. live[b].a + live[b].n - 1 : ~(live[c].a <= x /\ x < live[c].a + live[c].n)
\* with nobody in the pool and nothing handed out a fitting request is not refused
NotRefused == [][\A t \in Threads : pc[t].ph = "asked" /\ pc'[t].ph = "idle" /\ live' = live => pc[t].full = Leaves]_vars
=============================================================================
