------------------------------- MODULE RingMC -------------------------------
(* The ring as an array with two growing indices and a mask (what the code      *)
(* does), driven against the queue it has to implement; growing moves each       *)
(* element to where the new mask looks for it (MOVE), shrinks on a hard clear.   *)
EXTENDS Ring, FiniteSets, TLC
CONSTANTS MOVE, CAP, TOP, DYN
VARIABLES buf, head, tail
vars == <<rvars, buf, head, tail>>
Init == RInit(CAP) /\ buf = [i \in 0..(CAP - 1) |-> 0] /\ head = 0 /\ tail = 0
Mask(b) == Cardinality(DOMAIN b)
Slot(b, i) == b[i % Mask(b)]
Grow(k) == LET nb == [i \in 0..(k - 1) |-> IF i \in DOMAIN buf THEN buf[i] ELSE 0] IN
           IF k <= Mask(buf) THEN buf
           ELSE IF MOVE THEN [i \in 0..(k - 1) |-> LET S == {j \in tail..(head - 1) : j % k = i} IN IF S = {} THEN 0 ELSE Slot(buf, CHOOSE j \in S : TRUE)]
           ELSE nb
Put(b, h, r) == [i \in DOMAIN b |-> LET S == {j \in h..(h + r - 1) : j % Mask(b) = i} IN IF S = {} THEN b[i] ELSE next + (CHOOSE j \in S : TRUE) - h]
DoWrite(n, full) ==
  /\ \E r \in 0..n : Write(n, full, r, DYN)
  /\ LET g == Grow(size') r == next' - next IN buf' = Put(g, head, r) /\ head' = head + r
  /\ UNCHANGED tail
DoRead(n) ==
  /\ Len(q) > 0 /\ \E r \in 0..n : Drop(n, r) /\ tail' = tail + r
  /\ UNCHANGED <<buf, head>>
DoClear(hard) ==
  /\ Clear(hard, CAP, DYN) /\ head' = 0 /\ tail' = 0
  /\ buf' = [i \in 0..(size' - 1) |-> 0]
Next == \/ \E n \in 1..3, f \in BOOLEAN : next + n <= TOP /\ DoWrite(n, f)
        \/ \E n \in 1..3 : DoRead(n)
        \/ \E h \in BOOLEAN : DoClear(h)
Spec == Init /\ [][Next]_vars
\* what the indices say is what the queue says
Refines == /\ Mask(buf) = size /\ head - tail = Len(q) /\ Len(q) <= size
           /\ \A i \in 1..Len(q) : Slot(buf, tail + i - 1) = q[i]
InOrder == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
=============================================================================
