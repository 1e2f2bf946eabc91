--------------------------------- MODULE Ring ---------------------------------
(* A ring buffer is a bounded first-in first-out queue; a dynamic ring grows     *)
(* instead of refusing.  Values are consecutive numbers.                         *)
EXTENDS Integers, Sequences
VARIABLES q, size, next
rvars == <<q, size, next>>
RMin(a, b) == IF a < b THEN a ELSE b
RInit(cap) == q = <<>> /\ size = cap /\ next = 1
Fresh(k) == [i \in 1..k |-> next + i - 1]
Pow2(k, c) == \E e \in 0..20 : k = c * 2^e
\* as many as fit (a full write: all or nothing); a dynamic ring makes room
Write(n, full, r, dyn) ==
  /\ LET room == size - Len(q) IN
     IF dyn THEN r = n ELSE r = IF n <= room THEN n ELSE IF full THEN 0 ELSE room
  /\ q' = q \o Fresh(r) /\ next' = next + r
  /\ size' = IF Len(q') <= size THEN size ELSE CHOOSE k \in {size * 2^e : e \in 1..12} : k >= Len(q') /\ k < 2 * Len(q')
Read(n, r, v, ro) ==
  /\ r = RMin(n, Len(q)) /\ v = SubSeq(q, 1, r)
  /\ q' = IF ro THEN q ELSE SubSeq(q, r + 1, Len(q))
  /\ UNCHANGED <<size, next>>
Drop(n, r) == r = RMin(n, Len(q)) /\ q' = SubSeq(q, r + 1, Len(q)) /\ UNCHANGED <<size, next>>
Peek(n, ok, v) == ok = (Len(q) >= n) /\ (q # <<>> /\ ok => v = q[1]) /\ UNCHANGED rvars
At(n, ok, v) == ok = (n < Len(q)) /\ (ok => v = q[n + 1]) /\ UNCHANGED rvars
Clear(hard, cap, dyn) == q' = <<>> /\ size' = (IF hard /\ dyn THEN cap ELSE size) /\ UNCHANGED next
Status(len, room, sz, empty, full) ==
  /\ len = Len(q) /\ sz = size /\ room = size - len /\ empty = (len = 0) /\ full = (room = 0)
  /\ UNCHANGED rvars
=============================================================================
