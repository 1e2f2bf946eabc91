-------------------------------- MODULE Words -------------------------------
(* What the text helpers compute: a text is a sequence of byte values, the   *)
(* result of every helper is defined here from its arguments alone.          *)
EXTENDS Text, FiniteSets
Set(m) == {m[i] : i \in 1..Len(m)}
\* ---- trimming: off with everything of the mask at the ends
LTrim(s, m) == LET P == {i \in 1..Len(s) : s[i] \notin Set(m)} IN
               IF P = {} THEN <<>> ELSE From(s, CHOOSE i \in P : \A j \in P : i <= j)
RTrim(s, m) == TrimEnd(s, Set(m), 0)
Trim(s, m)  == LTrim(RTrim(s, m), m)
\* ---- searching and replacing
IsAt(s, f, i) == i + Len(f) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(f) - 1) = f
Pos(s, f, i)  == LET P == {j \in i..Len(s) : IsAt(s, f, j)} IN
                 IF f = <<>> \/ P = {} THEN 0 ELSE CHOOSE j \in P : \A k \in P : j <= k
\* the first n (-1: all) occurrences, from the left, without looking into what was put in
RECURSIVE Replace(_, _, _, _)
Replace(s, f, by, n) == LET p == Pos(s, f, 1) IN
  IF p = 0 \/ n = 0 THEN s
  ELSE SubSeq(s, 1, p - 1) \o by \o Replace(From(s, p + Len(f)), f, by, IF n = -1 THEN -1 ELSE n - 1)
RECURSIVE Replaces(_, _, _, _)
Replaces(s, fs, by, n) == IF fs = <<>> THEN s ELSE Replaces(Replace(s, Head(fs), by, n), Tail(fs), by, n)
RECURSIVE Split(_, _)
Split(s, k) == LET p == Pos(s, k, 1) IN IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o Split(From(s, p + Len(k)), k)
Explode(s, k, one, ign) ==
  LET ps == IF s = <<>> THEN <<>> ELSE IF one THEN Pieces(s, Set(k)) ELSE Split(s, k) IN IF ign THEN NotEmpty(ps) ELSE ps
Contains(s, fs) == \E i \in 1..Len(fs) : fs[i] # <<>> /\ Pos(s, fs[i], 1) # 0
\* ---- what may not be in a text that goes into a statement
Checked(s) == s # <<>> /\ Set(Before(s, {0})) \cap {39, 34, 40, 41, 61} = {}
\* ---- letters, slashes, escapes
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Upper(s) == Map(s, LAMBDA c : IF c \in 97..122 THEN c - 32 ELSE c)
Lower(s) == Map(s, LAMBDA c : IF c \in 65..90 THEN c + 32 ELSE c)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Slashed(s) == Flat(Map(s, LAMBDA c : IF c \in {39, 34, 92} THEN <<92, c>> ELSE <<c>>))
Escapes == [c \in {0, 10, 13, 26, 34, 39, 92} |->
              CASE c = 0 -> 48 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 26 -> 90 [] OTHER -> c]
Escaped(c) == IF c \in DOMAIN Escapes THEN <<92, Escapes[c]>> ELSE <<c>>
\* as much of the escaped text as goes into n bytes, never half an escape
RECURSIVE Escape(_, _)
Escape(s, n) == IF s = <<>> \/ Len(Escaped(Head(s))) > n THEN <<>>
                ELSE Escaped(Head(s)) \o Escape(Tail(s), n - Len(Escaped(Head(s))))
\* ---- paths
Slash(s) == Map(s, LAMBDA c : IF c = 92 THEN 47 ELSE c)
Path(s, n, unix) == [i \in 1..Len(s) |-> IF i > n THEN s[i] ELSE IF unix /\ s[i] = 92 THEN 47 ELSE IF ~unix /\ s[i] = 47 THEN 92 ELSE s[i]]
DirName(s) == LET P == {i \in 1..Len(s) : Slash(s)[i] = 47} IN
              IF P = {} THEN <<>> ELSE SubSeq(Slash(s), 1, (CHOOSE i \in P : \A j \in P : i >= j) - 1)
Complete(s, n, d) == IF s # <<>> /\ s[Len(s)] # d /\ Len(s) + 1 < n THEN Append(s, d) ELSE s
\* ---- numbers: three significant digits and a unit (ties go either way)
Digs(k) == IF k = 1000 THEN <<49, 48, 48, 48>> ELSE <<48 + (k \div 100), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
Units == <<<<>>, <<107>>, <<77>>, <<71>>, <<84>>, <<80>>, <<69>>>>
Show(k, n) ==      \* k significant digits (100..999) of a number of n digits
  LET w == 1 + ((n - 1) % 3) d == Digs(k) IN
  (IF w = 3 THEN d ELSE SubSeq(d, 1, w) \o <<46>> \o From(d, w + 1)) \o Units[1 + ((n - 1) \div 3)]
Over(n) ==         \* 1000 shown with the decimals and the unit of the number of n digits
  LET w == 2 + ((n - 1) % 3) d == Digs(1000) IN
  (IF w = 4 THEN d ELSE SubSeq(d, 1, w) \o <<46>> \o From(d, w + 1)) \o Units[1 + ((n - 1) \div 3)]
Sizes(v) ==        \* every way the number v (its digits) may be shown
  LET n == Len(v) k == Num(SubSeq(v, 1, 3), 0) r == From(v, 4)
      z(i) == IF i <= Len(r) THEN r[i] ELSE 48
      up == z(1) >= 53
      tie == \/ z(1) = 53 /\ \A i \in 2..11 : z(i) = 48
             \/ Len(r) >= 11 /\ z(1) = 52 /\ \A i \in 2..11 : z(i) = 57
      round(b) == IF ~b THEN Show(k, n) ELSE IF k = 999 THEN Show(100, n + 1) ELSE Show(k + 1, n)
  IN IF n <= 3 THEN {v} ELSE IF tie THEN {round(TRUE), round(FALSE)} \cup (IF k = 999 THEN {Over(n)} ELSE {}) ELSE {round(up)}
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ Head(d) = 48 THEN NoZeros(Tail(d)) ELSE d
\* the number a text begins with, as text
NumberOf(s) == LET g == Signed(SkipBlank(s)) d == NoZeros(Digits(g[2])) IN
               IF d = <<>> THEN <<48>> ELSE IF g[1] = -1 /\ d # <<48>> THEN <<45>> \o d ELSE d
\* ---- a second of the calendar, years from 1970
RECURSIVE Year(_, _)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Year(y, d) == LET n == IF Leap(y) THEN 366 ELSE 365 IN IF d < n THEN <<y, d>> ELSE Year(y + 1, d - n)
MonthLen(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE Month(_, _, _)
Month(y, m, d) == IF d < MonthLen(y, m) THEN <<m, d + 1>> ELSE Month(y, m + 1, d - MonthLen(y, m))
Two(x) == <<48 + ((x \div 10) % 10), 48 + (x % 10)>>
Date(days) == LET y == Year(1970, days) m == Month(y[1], 1, y[2]) IN
              Two(y[1] \div 100) \o Two(y[1] % 100) \o <<45>> \o Two(m[1]) \o <<45>> \o Two(m[2])
Clock(sec) == Two(sec \div 3600) \o <<58>> \o Two((sec \div 60) % 60) \o <<58>> \o Two(sec % 60)
Time(t) == Date(t \div 86400) \o <<84>> \o Clock(t % 86400)
=============================================================================
