--------------------------------- MODULE Mem ---------------------------------
(* A memory pool: blocks handed out are disjoint and keep what was written in    *)
(* them; a leaf none of whose blocks is out can be allocated from.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Leaves
VARIABLES area,   \* leaf -> [lo, hi): where it is
          live,   \* block -> [a, n, l] handed out and not returned; l = 0: from the system
          pc      \* thread -> what it is doing
mvars == <<area, live, pc>>
MIdle == [ph |-> "idle", n |-> 0, b |-> 0, l |-> 0, full |-> {}]
MInit == area = [l \in {} |-> 0] /\ live = [b \in {} |-> 0] /\ pc = [t \in Threads |-> MIdle]
MArea(l, lo, hi) == area' = (l :> [lo |-> lo, hi |-> hi]) @@ area /\ UNCHANGED <<live, pc>>
Busy(l) == (\E b \in DOMAIN live : live[b].l = l) \/ (\E t \in Threads : pc[t].ph \in {"got", "freeing"} /\ pc[t].l = l)
MCall(t, n, b) == /\ pc[t].ph = "idle" /\ pc' = [pc EXCEPT ![t] = [MIdle EXCEPT !.ph = "asked", !.n = n, !.b = b]]
                  /\ UNCHANGED <<area, live>>
\* hidden: a leaf is found without room, a block is cut from a leaf
MLook(t, l) == /\ pc[t].ph = "asked" /\ l \notin pc[t].full /\ (Busy(l) \/ pc[t].n + 32 > area[l].hi - area[l].lo)
               /\ pc' = [pc EXCEPT ![t].full = @ \cup {l}] /\ UNCHANGED <<area, live>>
MCut(t, l) == /\ pc[t].ph = "asked" /\ pc' = [pc EXCEPT ![t].ph = "got", ![t].l = l] /\ UNCHANGED <<area, live>>
Disjoint(a, n) == \A b \in DOMAIN live : a + n <= live[b].a \/ live[b].a + live[b].n <= a \/ n = 0 \/ live[b].n = 0
Out(a, n, l) == /\ Disjoint(a, n)
                /\ IF l = 0 THEN \A k \in DOMAIN area : a + n <= area[k].lo \/ area[k].hi <= a
                   ELSE area[l].lo <= a /\ a + n <= area[l].hi
MGot(t, a) == /\ \/ pc[t].ph = "got" /\ Out(a, pc[t].n, pc[t].l)
                 \/ pc[t].ph = "asked" /\ pc[t].full = DOMAIN area /\ Out(a, pc[t].n, 0)
              /\ live' = (pc[t].b :> [a |-> a, n |-> pc[t].n, l |-> IF pc[t].ph = "got" THEN pc[t].l ELSE 0]) @@ live
              /\ pc' = [pc EXCEPT ![t] = MIdle] /\ UNCHANGED area
\* no block: only if there was no leaf to take it from
MNone(t) == pc[t].ph = "asked" /\ pc[t].full = DOMAIN area /\ pc' = [pc EXCEPT ![t] = MIdle] /\ UNCHANGED <<area, live>>
MHuge(t) == pc[t].ph = "asked" /\ pc' = [pc EXCEPT ![t] = MIdle] /\ UNCHANGED <<area, live>>
MFree(t, b) == /\ pc[t].ph = "idle" /\ b \in DOMAIN live
               /\ pc' = [pc EXCEPT ![t] = [MIdle EXCEPT !.ph = "freeing", !.l = live[b].l]]
               /\ live' = [x \in DOMAIN live \ {b} |-> live[x]] /\ UNCHANGED area
MFreed(t) == pc[t].ph = "freed" /\ pc' = [pc EXCEPT ![t] = MIdle] /\ UNCHANGED <<area, live>>
MBack(t) == pc[t].ph = "freeing" /\ pc' = [pc EXCEPT ![t].ph = "freed"] /\ UNCHANGED <<area, live>>   \* hidden
\* is [off, off + n) inside block b
MInside(b, off, n) == b \in DOMAIN live /\ off >= 0 /\ off + n <= live[b].n
=============================================================================
