------------------------------- MODULE WordsMC -------------------------------
(* The laws the text helpers obey, over every text up to Max characters.     *)
EXTENDS Words
CONSTANTS Chars, Max, MaskMax
VARIABLES s, m, b
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
Init == s \in Texts(Max) /\ m \in Texts(MaskMax) /\ b \in Texts(MaskMax)
Next == UNCHANGED <<s, m, b>>
RECURSIVE Join(_, _)
Join(ss, k) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o k \o Join(Tail(ss), k)
Suffix(x, y)  == Len(x) <= Len(y) /\ From(y, Len(y) - Len(x) + 1) = x
\* trimming takes off a start and an end, all of it mask, and leaves nothing of it at the ends
Trimmed ==
  LET t == Trim(s, m) IN
  /\ Trim(t, m) = t
  /\ t # <<>> => t[1] \notin Set(m) /\ t[Len(t)] \notin Set(m)
  /\ \E i \in 0..Len(s), j \in 0..Len(s) :
       /\ i + Len(t) + j = Len(s) /\ SubSeq(s, i + 1, i + Len(t)) = t
       /\ \A k \in 1..Len(s) : k <= i \/ k > i + Len(t) => s[k] \in Set(m)
  /\ Trim(s, m) = RTrim(LTrim(s, m), m)
  /\ Suffix(LTrim(s, m), s)
Has(x, f) == Pos(x, f, 1) # 0
Count(x, f) == Len(Split(x, f)) - 1
Replaced ==
  /\ m = <<>> => Replace(s, m, b, -1) = s
  /\ m # <<>> =>
     /\ ~Has(s, m) => Replace(s, m, b, -1) = s
     /\ Len(Replace(s, m, b, -1)) = Len(s) + Count(s, m) * (Len(b) - Len(m))
     /\ Replace(s, m, m, -1) = s
     /\ Replace(s, m, b, Count(s, m)) = Replace(s, m, b, -1)
     /\ Replace(s, m, b, 0) = s
     /\ Replace(s, m, b, -1) = Join(Split(s, m), b)
Exploded ==
  m # <<>> =>
     /\ Join(Split(s, m), m) = s
     /\ \A i \in 1..Len(Split(s, m)) : ~Has(Split(s, m)[i], m)
     /\ s # <<>> => \A i \in 1..Len(Explode(s, m, TRUE, FALSE)) : Set(Explode(s, m, TRUE, FALSE)[i]) \cap Set(m) = {}
     /\ \A one \in BOOLEAN : \A i \in 1..Len(Explode(s, m, one, TRUE)) : Explode(s, m, one, TRUE)[i] # <<>>
RECURSIVE Unslash(_)
Unslash(x) == IF x = <<>> THEN <<>> ELSE IF x[1] = 92 THEN <<x[2]>> \o Unslash(From(x, 3)) ELSE <<x[1]>> \o Unslash(Tail(x))
Escaping ==
  /\ Unslash(Slashed(s)) = s
  /\ \A n \in 0..(2 * Max) : LET x == Escape(s, n) IN
       /\ Len(x) <= n
       /\ n >= 2 * Len(s) => Len(x) >= Len(s)
       /\ \A k \in n..(2 * Max) : SubSeq(Escape(s, k), 1, Len(x)) = x
Cased == Upper(Lower(s)) = Upper(s) /\ Lower(Upper(s)) = Lower(s) /\ Len(Upper(s)) = Len(s)
Paths == /\ DirName(s) # <<>> => Len(DirName(s)) < Len(s)
         /\ Path(Path(s, Len(s), TRUE), Len(s), TRUE) = Path(s, Len(s), TRUE)
         /\ 92 \notin Set(Path(s, Len(s), TRUE)) /\ 47 \notin Set(Path(s, Len(s), FALSE))
         /\ Complete(Complete(s, 99, 47), 99, 47) = Complete(s, 99, 47)
\* what is left by the check is a text without quotes and brackets
Checks == Checked(s) => s # <<>> /\ 39 \notin Set(Before(s, {0}))
\* numbers and dates that are known
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Dig(n \div 10) \o <<48 + (n % 10)>>
Known ==
  /\ Time(0) = <<49,57,55,48,45,48,49,45,48,49,84,48,48,58,48,48,58,48,48>>
  /\ Time(951782400) = <<50,48,48,48,45,48,50,45,50,57,84,48,48,58,48,48,58,48,48>>           \* 2000-02-29
  /\ Time(2147483647) = <<50,48,51,56,45,48,49,45,49,57,84,48,51,58,49,52,58,48,55>>          \* 2038-01-19T03:14:07
  /\ Sizes(Dig(999)) = {Dig(999)}
  /\ Sizes(Dig(1000)) = {<<49,46,48,48,107>>}                                                 \* 1.00k
  /\ Sizes(Dig(12345)) = {<<49,50,46,51,107>>}                                                \* 12.3k
  /\ Sizes(Dig(999949)) = {<<49,46,48,48,77>>}
  /\ \A n \in 1..1200 : Sizes(Dig(n)) # {} /\ NumberOf(Dig(n)) = Dig(n)
Inv == Trimmed /\ Replaced /\ Exploded /\ Escaping /\ Cased /\ Paths /\ Checks
ASSUME Known
=============================================================================
