-------------------------------- MODULE Packet --------------------------------
(* A packet is a byte string with a read position.  What is written while       *)
(* writing is on is appended: numbers in network order, strings and byte strings *)
(* behind their length in four bytes.  Reading takes values off at the position, *)
(* or nothing if too little is left.  Every mark is independent of the others.   *)
EXTENDS Integers, Sequences
VARIABLES data, off, fl, pid
kvars == <<data, off, fl, pid>>
Marks == {"w", "r", "rq", "rs", "nt"}
KInit == data = <<>> /\ off = 0 /\ fl = {} /\ pid = 0
B4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Num(b) == ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
Left == Len(data) - off
At(i, n) == SubSeq(data, i + 1, i + n)
Zeros(n) == [i \in 1..n |-> 0]
KPutRaw(v, r) ==
  /\ IF "w" \in fl THEN r = Len(v) /\ data' = data \o v ELSE r = 0 /\ data' = data
  /\ UNCHANGED <<off, fl, pid>>
KPutStr(v, r) ==
  /\ IF "w" \in fl THEN r = Len(v) /\ data' = data \o B4(Len(v)) \o v ELSE r = 0 /\ data' = data
  /\ UNCHANGED <<off, fl, pid>>
\* a number: all of its bytes or nothing (then zero)
KNum(n, r, v) ==
  /\ IF "r" \in fl /\ Left >= n THEN r = n /\ v = At(off, n) /\ off' = off + n
     ELSE r = 0 /\ v = Zeros(n) /\ off' = off
  /\ UNCHANGED <<data, fl, pid>>
\* d: by how much the position moved
KStr(r, d, v) ==
  /\ IF "r" \notin fl \/ Left < 4 THEN r = 0 /\ d = 0 /\ v = <<>> /\ off' = off
     ELSE LET p == At(off, 4) IN
          IF p[1] < 128 /\ Num(p) <= Left - 4
          THEN r = Num(p) /\ d = 4 + r /\ v = At(off + 4, r) /\ off' = off + d
          ELSE r = 0 /\ v = <<>> /\ d \in {0, 4} /\ off' = off + d
  /\ UNCHANGED <<data, fl, pid>>
KRaw(n, r, v) ==
  /\ IF "r" \in fl /\ Left >= n THEN r = n /\ v = At(off, n) /\ off' = off + n
     ELSE r = 0 /\ v = <<>> /\ off' = off
  /\ UNCHANGED <<data, fl, pid>>
KRemove(n, r) == r = (IF n < Left THEN n ELSE Left) /\ off' = off + r /\ UNCHANGED <<data, fl, pid>>
KFlag(f, on) == fl' = (IF on THEN fl \cup {f} ELSE fl \ {f}) /\ UNCHANGED <<data, off, pid>>
KId(i) == pid' = i /\ UNCHANGED <<data, off, fl>>
KState(size, o, rq, rs, nt, i) ==
  /\ size = Len(data) /\ o = off /\ rq = ("rq" \in fl) /\ rs = ("rs" \in fl) /\ nt = ("nt" \in fl) /\ i = pid
  /\ UNCHANGED kvars
KData(v) == v = data /\ UNCHANGED kvars
=============================================================================
