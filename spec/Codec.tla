--------------------------------- MODULE Codec ---------------------------------
(* Packets on a byte stream.  The wire form of a packet is its identifier in two  *)
(* bytes, the length of its data in four, and the data.  Decoding looks at the    *)
(* front of the received bytes: a whole packet within the limits is taken off;    *)
(* otherwise nothing is taken and the answer says why.                            *)
(* Byte strings are in the run form of Runs.                                      *)
EXTENDS Runs
VARIABLES wire,   \* encoded, not yet arrived
          buf     \* arrived, not yet decoded
dvars == <<wire, buf>>
DInit == wire = <<>> /\ buf = <<>>
RequestId == 65534
ResponseId == 65533
NotifyId == 65532
\* canonical run form of a plain byte sequence
RECURSIVE Canon(_)
Canon(s) == IF s = <<>> THEN <<>> ELSE RCat(<<<<s[1], 1>>>>, Canon(Tail(s)))
Byte(s, i) == LET t == RTake(RDrop(s, i), 1) IN t[1][1]
HeadOf(id, n) == <<id \div 256, id % 256, (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Encoded(id, from, n) == RCat(Canon(HeadOf(id, n)), Run(from, n))
Kind(id) == IF id = RequestId THEN "rq" ELSE IF id = ResponseId THEN "rs" ELSE IF id = NotifyId THEN "nt" ELSE ""
\* what decoding gives: <<answer, id, data>>
Decoded(b, maxid, maxlen) ==
  IF RLen(b) < 6 THEN <<"fill", 0, <<>>>>
  ELSE LET id == Byte(b, 0) * 256 + Byte(b, 1)
           big == Byte(b, 2) >= 64                       \* beyond every limit used here
           n == (Byte(b, 3) * 256 + Byte(b, 4)) * 256 + Byte(b, 5) + Byte(b, 2) * 16777216
       IN IF id = 0 \/ id > maxid \/ big THEN <<"bad", 0, <<>>>>
          ELSE IF n > maxlen THEN <<"bad", 0, <<>>>>
          ELSE IF RLen(b) < 6 + n THEN <<"need", 0, <<>>>>
          ELSE <<"ok", id, RTake(RDrop(b, 6), n)>>
DEncode(id, from, n, v) == v = Encoded(id, from, n) /\ wire' = RCat(wire, v) /\ buf' = buf
DRawBytes(v) == wire' = RCat(wire, v) /\ buf' = buf
DFeed(n) == n <= RLen(wire) /\ buf' = RCat(buf, RTake(wire, n)) /\ wire' = RDrop(wire, n)
DDecode(maxid, maxlen, r, left, id, v, kind) ==
  LET d == Decoded(buf, maxid, maxlen) IN
  /\ r = d[1]
  /\ buf' = (IF r = "ok" THEN RDrop(buf, 6 + RLen(d[3])) ELSE buf)
  /\ left = RLen(buf')
  /\ r = "ok" => id = d[2] /\ v = d[3] /\ kind = Kind(id)
  /\ wire' = wire
=============================================================================
