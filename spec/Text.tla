-------------------------------- MODULE Text --------------------------------
(* Character strings as sequences of codes: searching, splitting, numbers.   *)
EXTENDS Integers, Sequences
\* position of the first character of a set from position i on, 0 if none
First(s, S, i) == LET P == {j \in i..Len(s) : s[j] \in S} IN IF P = {} THEN 0 ELSE CHOOSE j \in P : \A k \in P : j <= k
From(s, i)   == SubSeq(s, i, Len(s))
Before(s, S) == LET i == First(s, S, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
Cut(s, n)    == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
\* the pieces between the characters of a set
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(s, S, i) == LET j == First(s, S, i) IN
                       IF j = 0 THEN <<From(s, i)>> ELSE <<SubSeq(s, i, j - 1)>> \o PiecesFrom(s, S, j + 1)
Pieces(s, S) == PiecesFrom(s, S, 1)
NotEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
\* without its last characters that are in S, but keeping the first one
RECURSIVE TrimEnd(_, _, _)
TrimEnd(s, S, keep) == IF Len(s) > keep /\ s[Len(s)] \in S THEN TrimEnd(SubSeq(s, 1, Len(s) - 1), S, keep) ELSE s
Blank == {32, 9, 10, 11, 12, 13}
Digit == 48..57
RECURSIVE SkipBlank(_)
SkipBlank(s) == IF s # <<>> /\ Head(s) \in Blank THEN SkipBlank(Tail(s)) ELSE s
Digits(s) == LET P == {j \in 1..Len(s) : s[j] \notin Digit} IN
             IF P = {} THEN s ELSE SubSeq(s, 1, (CHOOSE j \in P : \A k \in P : j <= k) - 1)
RECURSIVE Num(_, _)
Num(d, acc) == IF d = <<>> THEN acc ELSE Num(Tail(d), acc * 10 + Head(d) - 48)
Signed(s) == IF s # <<>> /\ Head(s) \in {43, 45} THEN <<IF Head(s) = 45 THEN -1 ELSE 1, Tail(s)>> ELSE <<1, s>>
\* the number a text begins with, 0 if it begins with none
Integer(s) == LET g == Signed(SkipBlank(s)) IN g[1] * Num(Digits(g[2]), 0)
\* the same with up to three decimals, in thousandths
Milli(s) == LET g == Signed(SkipBlank(s))
                w == Digits(g[2])
                r == From(g[2], Len(w) + 1)
                f == IF r # <<>> /\ Head(r) = 46 THEN Digits(Tail(r)) ELSE <<>>
                three == Cut(f \o <<48, 48, 48>>, 3)
            IN IF Len(w) > 6 \/ Num(w, 0) >= 1000 THEN g[1] * 1000000000   \* large ones are not told apart
               ELSE g[1] * (Num(w, 0) * 1000 + Num(three, 0))
=============================================================================
