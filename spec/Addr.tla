--------------------------------- MODULE Addr --------------------------------
(* What an address text means: host, port and family.                        *)
(*   [host][":" port]  for IPv4,  "[" host "]" [":" port] or host  for IPv6  *)
EXTENDS Text
Colon == 58  Dot == 46
Bad == [ok |-> FALSE]
\* ---- IPv4: four numbers up to 255, written without leading zeros
Dec(s) == s # <<>> /\ Len(s) <= 9 /\ \A i \in 1..Len(s) : s[i] \in Digit
Octet(s) == Dec(s) /\ Len(s) <= 3 /\ Num(s, 0) <= 255 /\ (Len(s) > 1 => Head(s) # 48)
Host4(s) == LET p == Pieces(s, {Dot}) IN
            IF Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i]) THEN [ok |-> TRUE, b |-> [i \in 1..4 |-> Num(p[i], 0)]] ELSE Bad
\* ---- IPv6: eight groups, one run of zeros may be left out, the last two may be written as IPv4
HexOf(c) == CASE c \in Digit -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Group(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : HexOf(s[i]) # -1
RECURSIVE HexNum(_, _)
HexNum(s, n) == IF s = <<>> THEN n ELSE HexNum(Tail(s), n * 16 + HexOf(Head(s)))
Pair(s) == LET n == HexNum(s, 0) IN <<n \div 256, n % 256>>
RECURSIVE Groups(_)      \* the bytes of groups, the last one may be IPv4
Groups(ps) == IF ps = <<>> THEN [ok |-> TRUE, b |-> <<>>]
              ELSE IF Group(Head(ps)) THEN LET r == Groups(Tail(ps)) IN IF r.ok THEN [ok |-> TRUE, b |-> Pair(Head(ps)) \o r.b] ELSE Bad
              ELSE IF Len(ps) = 1 THEN Host4(Head(ps)) ELSE Bad
Some(s) == IF s = <<>> THEN <<>> ELSE Pieces(s, {Colon})
Gap(s) == LET P == {i \in 1..(Len(s) - 1) : s[i] = Colon /\ s[i + 1] = Colon} IN
          IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Host6(s) == LET g == Gap(s) IN
  IF g = 0 THEN LET r == Groups(Some(s)) IN IF r.ok /\ Len(r.b) = 16 THEN r ELSE Bad
  ELSE LET a == Groups(Some(SubSeq(s, 1, g - 1))) b == Groups(Some(From(s, g + 2)))
       IN IF a.ok /\ b.ok /\ Len(a.b) + Len(b.b) <= 14
          THEN [ok |-> TRUE, b |-> a.b \o [i \in 1..(16 - Len(a.b) - Len(b.b)) |-> 0] \o b.b] ELSE Bad
\* ---- the whole text
IsFour(s) == Len(SelectSeq(s, LAMBDA c : c = Colon)) <= 1
PortOf(s) == IF s = <<>> THEN [ok |-> TRUE, n |-> 0]
             ELSE IF Head(s) = Colon /\ Dec(Tail(s)) /\ Num(Tail(s), 0) <= 65535 THEN [ok |-> TRUE, n |-> Num(Tail(s), 0)] ELSE [ok |-> FALSE, n |-> 0]
Local4 == <<<<>>, <<49, 50, 55, 46, 48, 46, 48, 46, 49>>, <<48, 46, 48, 46, 48, 46, 48>>>>
Local6 == <<<<>>, <<58, 58>>, <<58, 58, 49>>, <<48, 58, 48, 58, 48, 58, 48, 58, 48, 58, 48, 58, 48, 58, 48>>>>
Among(x, s) == \E i \in 1..Len(s) : s[i] = x
Any4 == <<0, 0, 0, 0>>  Loop4 == <<127, 0, 0, 1>>
Any6 == [i \in 1..16 |-> 0]  Loop6 == [i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0]
\* a host: the local ones mean everywhere to a listener and this machine to others
Meant(four, h, lis) ==
  IF four THEN IF Among(h, Local4) THEN [ok |-> TRUE, b |-> IF lis THEN Any4 ELSE Loop4] ELSE Host4(h)
  ELSE IF Among(h, Local6) THEN [ok |-> TRUE, b |-> IF lis THEN Any6 ELSE Loop6] ELSE Host6(h)
Whole(four, h, p, lis) == LET m == Meant(four, h, lis) IN
  IF m.ok /\ p.ok THEN [ok |-> TRUE, four |-> four, b |-> m.b, port |-> p.n] ELSE Bad
Split(s) ==      \* <<host, ":port" or nothing>>
  IF IsFour(s) THEN LET i == First(s, {Colon}, 1) IN IF i = 0 THEN <<s, <<>>>> ELSE <<SubSeq(s, 1, i - 1), From(s, i)>>
  ELSE LET i == First(s, {93}, 1) IN
       IF i = 0 THEN <<s, <<>>>> ELSE <<SubSeq(s, IF Head(s) = 91 THEN 2 ELSE 1, i - 1), From(s, i + 1)>>
Parse(s, lis) == Whole(IsFour(s), Split(s)[1], PortOf(Split(s)[2]), lis)
Pair2(h, p, lis) == Whole(IsFour(h), h, [ok |-> TRUE, n |-> p], lis)
\* what a text names, taken literally
Literal(s) == LET h == Split(s)[1] p == PortOf(Split(s)[2]) m == IF IsFour(s) THEN Host4(h) ELSE Host6(h) IN
  IF m.ok /\ p.ok THEN [ok |-> TRUE, four |-> IsFour(s), b |-> m.b, port |-> p.n] ELSE Bad
=============================================================================
