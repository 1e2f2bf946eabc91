--------------------------------- MODULE Runs ---------------------------------
(* Byte strings as sequences of maximal runs <<first, length>> of consecutive    *)
(* values modulo 251: a unique, short form of long test data.                     *)
EXTENDS Integers, Sequences
RECURSIVE RLen(_), RTake(_, _), RDrop(_, _)
RLen(s) == IF s = <<>> THEN 0 ELSE s[1][2] + RLen(Tail(s))
Run(f, n) == IF n = 0 THEN <<>> ELSE <<<<f % 251, n>>>>
RCat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
              LET x == a[Len(a)] y == b[1] IN
              IF x[1] < 251 /\ (x[1] + x[2]) % 251 = y[1] THEN SubSeq(a, 1, Len(a) - 1) \o <<<<x[1], x[2] + y[2]>>>> \o Tail(b)
              ELSE a \o b
RTake(s, n) == IF n = 0 \/ s = <<>> THEN <<>>
               ELSE IF s[1][2] <= n THEN RCat(<<s[1]>>, RTake(Tail(s), n - s[1][2])) ELSE <<<<s[1][1], n>>>>
RDrop(s, n) == IF n = 0 \/ s = <<>> THEN s
               ELSE IF s[1][2] <= n THEN RDrop(Tail(s), n - s[1][2]) ELSE <<<<(s[1][1] + n) % 251, s[1][2] - n>>>> \o Tail(s)
RMn(a, b) == IF a < b THEN a ELSE b
=============================================================================
