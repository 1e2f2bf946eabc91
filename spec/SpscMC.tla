------------------------------- MODULE SpscMC -------------------------------
(* One producer and one consumer on the index protocol: the producer only moves *)
(* the head, the consumer only the tail.  RESET: the consumer also sets both to  *)
(* zero when it has drained what it saw.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS RESET, CAP, TOP
VARIABLES buf, head, tail, p, c, made, got
vars == <<buf, head, tail, p, c, made, got>>
Init == buf = [i \in 0..(CAP - 1) |-> 0] /\ head = 0 /\ tail = 0 /\ p = [ph |-> "idle", h |-> 0, k |-> 0] /\ c = [ph |-> "idle", t |-> 0, k |-> 0, av |-> 0] /\ made = 0 /\ got = <<>>
PLook(n) == /\ p.ph = "idle" /\ made + n <= TOP
            /\ LET room == CAP - (head - tail) IN p' = [ph |-> "put", h |-> head, k |-> IF n <= room THEN n ELSE room]
            /\ UNCHANGED <<buf, head, tail, c, made, got>>
PPut == /\ p.ph = "put" /\ p.k >= 0
        /\ buf' = [i \in DOMAIN buf |-> LET S == {j \in p.h..(p.h + p.k - 1) : j % CAP = i} IN IF S = {} THEN buf[i] ELSE made + 1 + (CHOOSE j \in S : TRUE) - p.h]
        /\ p' = [p EXCEPT !.ph = "pub"] /\ UNCHANGED <<head, tail, c, made, got>>
PPub == /\ p.ph = "pub" /\ head' = p.h + p.k /\ made' = made + p.k /\ p' = [p EXCEPT !.ph = "idle"]
        /\ UNCHANGED <<buf, tail, c, got>>
CLook(n) == /\ c.ph = "idle"
            /\ LET av == head - tail IN c' = [ph |-> "get", t |-> tail, av |-> av, k |-> IF n <= av THEN n ELSE av]
            /\ UNCHANGED <<buf, head, tail, p, made, got>>
CGet == /\ c.ph = "get" /\ got' = got \o [i \in 1..c.k |-> buf[(c.t + i - 1) % CAP]] /\ c' = [c EXCEPT !.ph = IF RESET /\ c.k = c.av THEN "zero" ELSE "pub"]
        /\ UNCHANGED <<buf, head, tail, p, made>>
CPub == c.ph = "pub" /\ tail' = c.t + c.k /\ c' = [c EXCEPT !.ph = "idle"] /\ UNCHANGED <<buf, head, p, made, got>>
CZero == c.ph = "zero" /\ head' = 0 /\ tail' = 0 /\ c' = [c EXCEPT !.ph = "idle"] /\ UNCHANGED <<buf, p, made, got>>
Next == (\E n \in 1..3 : PLook(n) \/ CLook(n)) \/ PPut \/ PPub \/ CGet \/ CPub \/ CZero
Spec == Init /\ [][Next]_vars
Fifo == got = [i \in 1..Len(got) |-> i]
Kept == p.ph = "idle" /\ c.ph = "idle" => Len(got) + (head - tail) = made
Small == Len(got) <= TOP
=============================================================================
