------------------------------- MODULE StreamMC -------------------------------
(* Streams as a closed system: what went in (in order) is what came out, plus     *)
(* what is under way.                                                             *)
EXTENDS Stream
CONSTANT TOP
VARIABLES wr, pw, gone, pgot
vars == <<xvars, wr, pw, gone, pgot>>
\* local bytes are numbered from 0, the peer's from 100
Init == XInit /\ wr = 0 /\ pw = 100 /\ gone = <<>> /\ pgot = <<>>
Next == \/ \E n \in 1..3 : wr + n <= TOP /\ XWrite(n, n, wr) /\ wr' = wr + n /\ UNCHANGED <<pw, gone, pgot>>
        \/ \E n \in 1..3 : LET r == RMn(n, RLen(buf)) IN XRead(n, r, RTake(buf, r)) /\ gone' = RCat(gone, RTake(buf, r)) /\ UNCHANGED <<wr, pw, pgot>>
        \/ \E n \in 1..3 : pw + n <= 100 + TOP /\ XPeerSend(n, pw) /\ open /\ pw' = pw + n /\ UNCHANGED <<wr, gone, pgot>>
        \/ \E n \in 1..3 : open /\ RLen(sout) >= n /\ XPeerRecv(n, RTake(sout, n)) /\ pgot' = RCat(pgot, RTake(sout, n)) /\ UNCHANGED <<wr, pw, gone>>
        \/ \E r \in -1..3 : (XPull(r, IF r < 0 THEN 0 ELSE r) \/ XPush(r, IF r < 0 THEN 0 ELSE r)) /\ UNCHANGED <<wr, pw, gone, pgot>>
        \/ XPeerClose /\ UNCHANGED <<wr, pw, gone, pgot>>
Spec == Init /\ [][Next]_vars
RECURSIVE Only(_, _)
Only(s, lo) == IF s = <<>> THEN <<>> ELSE LET r == Only(Tail(s), lo) IN IF (s[1][1] >= 100) = lo THEN RCat(<<s[1]>>, r) ELSE r
\* what the user reads of the peer's bytes is a prefix-ordered part of what was sent
Conserved == RLen(gone) + RLen(pgot) + RLen(buf) + RLen(sin) + RLen(sout) = wr + pw - 100
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i][1] + s[i][2] <= s[i + 1][1]
InOrder == Ascending(Only(RCat(gone, RCat(buf, sin)), TRUE)) /\ Ascending(Only(RCat(pgot, RCat(sout, buf)), FALSE))
=============================================================================
