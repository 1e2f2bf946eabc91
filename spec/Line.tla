--------------------------------- MODULE Line ---------------------------------
(* The line form: a packet is its data and a line feed; calls are put between     *)
(* two-byte marks.  Decoding takes the first line (without its end, "\n" or       *)
(* "\r\n") if it is within the limit; a longer one is an error.                   *)
EXTENDS Integers, Sequences
VARIABLES wire, buf
lvars == <<wire, buf>>
LInit == wire = <<>> /\ buf = <<>>
Open(k) == IF k = "rq" THEN <<99, 114>> ELSE IF k = "rs" THEN <<99, 111>> ELSE IF k = "nt" THEN <<99, 110>> ELSE <<>>
Close(k) == IF k = "rq" THEN <<114, 99>> ELSE IF k = "rs" THEN <<111, 99>> ELSE IF k = "nt" THEN <<110, 99>> ELSE <<>>
Encoded(k, p) == Open(k) \o p \o Close(k) \o <<10>>
Least(k) == IF k = "rq" THEN 9 ELSE IF k = "rs" THEN 13 ELSE 5
IsCall(l, k) == /\ Len(l) >= Least(k) /\ SubSeq(l, 1, 2) = Open(k) /\ SubSeq(l, Len(l) - 1, Len(l)) = Close(k)
Kind(l) == IF IsCall(l, "rq") THEN "rq" ELSE IF IsCall(l, "rs") THEN "rs" ELSE IF IsCall(l, "nt") THEN "nt" ELSE ""
Mn(a, b) == IF a < b THEN a ELSE b
\* position of the first line feed among the first n bytes, 0: none
LF(b, n) == IF \E i \in 1..n : b[i] = 10 THEN CHOOSE i \in 1..n : b[i] = 10 /\ \A j \in 1..(i - 1) : b[j] # 10 ELSE 0
\* <<answer, bytes taken, kind, data>>
Decoded(b, maxlen) ==
  LET n == Mn(Len(b), maxlen)  p == LF(b, n) IN
  IF p = 0 THEN <<IF Len(b) >= maxlen THEN "err" ELSE "need", 0, "", <<>>>>
  ELSE LET l == IF p > 1 /\ b[p - 1] = 13 THEN SubSeq(b, 1, p - 2) ELSE SubSeq(b, 1, p - 1)
           k == Kind(l)
       IN <<"ok", p, k, IF k = "" THEN l ELSE SubSeq(l, 3, Len(l) - 2)>>
LEncode(k, p, v) == v = Encoded(k, p) /\ wire' = wire \o v /\ buf' = buf
LRawBytes(v) == wire' = wire \o v /\ buf' = buf
LFeed(n) == n <= Len(wire) /\ buf' = buf \o SubSeq(wire, 1, n) /\ wire' = SubSeq(wire, n + 1, Len(wire))
LDecode(maxlen, r, left, kind, v) ==
  LET d == Decoded(buf, maxlen) IN
  /\ r = d[1]
  /\ buf' = SubSeq(buf, d[2] + 1, Len(buf))
  /\ left = Len(buf')
  /\ r = "ok" => kind = d[3] /\ v = d[4]
  /\ wire' = wire
=============================================================================
