-------------------------------- MODULE Stream --------------------------------
(* A stream is an unbounded byte queue between a user and a socket.  Writing      *)
(* appends everything, reading takes what is there, pulling moves bytes from the  *)
(* socket into the queue, pushing moves them from the queue to the socket.        *)
EXTENDS Runs
VARIABLES buf,    \* in the stream
          sin,    \* sent by the peer, not pulled
          sout,   \* pushed, not received by the peer
          open    \* the peer has not closed
xvars == <<buf, sin, sout, open>>
XInit == buf = <<>> /\ sin = <<>> /\ sout = <<>> /\ open = TRUE
XWrite(n, r, from) == r = n /\ buf' = RCat(buf, Run(from, n)) /\ UNCHANGED <<sin, sout, open>>
XRead(n, r, v) == r = RMn(n, RLen(buf)) /\ v = RTake(buf, r) /\ buf' = RDrop(buf, r) /\ UNCHANGED <<sin, sout, open>>
XPeek(n, r, v) == r = RMn(n, RLen(buf)) /\ v = RTake(buf, r) /\ UNCHANGED xvars
XDrop(n, r) == r = RMn(n, RLen(buf)) /\ buf' = RDrop(buf, r) /\ UNCHANGED <<sin, sout, open>>
XSize(n, empty) == n = RLen(buf) /\ empty = (n = 0) /\ UNCHANGED xvars
XClear == buf' = <<>> /\ UNCHANGED <<sin, sout, open>>
XPeerSend(r, from) == sin' = RCat(sin, Run(from, r)) /\ UNCHANGED <<buf, sout, open>>
XPeerRecv(n, v) == LET k == RLen(v) IN
  /\ k <= n /\ v = RTake(sout, k) /\ (sout # <<>> => k > 0) /\ sout' = RDrop(sout, k) /\ UNCHANGED <<buf, sin, open>>
XPeerClose == open' = FALSE /\ UNCHANGED <<buf, sin, sout>>
\* pulling moves something if there is something; a closed peer is an error
XPull(r, d) ==
  /\ IF sin # <<>> /\ (open \/ sout = <<>>) THEN r > 0
     ELSE IF open THEN r = 0
     ELSE sout = <<>> /\ sin = <<>> => r < 0
  /\ IF r > 0 THEN d = r /\ r <= RLen(sin) /\ buf' = RCat(buf, RTake(sin, r)) /\ sin' = RDrop(sin, r)
     ELSE d = 0 /\ UNCHANGED <<buf, sin>>
  /\ UNCHANGED <<sout, open>>
XPush(r, d) ==
  /\ buf = <<>> => r = 0
  /\ buf # <<>> /\ open /\ sout = <<>> => r > 0
  /\ open => r >= 0
  /\ ~open => r <= 0
  /\ IF r > 0 THEN d = r /\ r <= RLen(buf) /\ sout' = RCat(sout, RTake(buf, r)) /\ buf' = RDrop(buf, r)
     ELSE d = 0 /\ UNCHANGED <<buf, sout>>
  /\ UNCHANGED <<sin, open>>
=============================================================================
