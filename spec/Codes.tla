-------------------------------- MODULE Codes -------------------------------
(* Encodings and digests of byte sequences: base64 (RFC 4648), hexadecimal,  *)
(* MD5 (RFC 1321), byte order.                                               *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
\* ---- base64
Letter(i) == CASE i \in 0..25 -> 65 + i [] i \in 26..51 -> 71 + i [] i \in 52..61 -> i - 4 [] i = 62 -> 43 [] i = 63 -> 47
               [] OTHER -> 61
From(s, i) == SubSeq(s, i, Len(s))
Cut(s, n)  == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Quad(a, b, c) == <<a \div 4, (a % 4) * 16 + (b \div 16), (b % 16) * 4 + (c \div 64), c % 64>>
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>>
             ELSE LET q == Quad(s[1], At(s, 2), At(s, 3)) IN
                  [i \in 1..4 |-> IF i > Len(s) + 1 THEN 61 ELSE Letter(q[i])] \o Encode(From(s, 4))
Value(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63
RECURSIVE Decode(_)
Decode(s) == IF s = <<>> \/ Head(s) = 61 THEN <<>>
             ELSE LET n == Len(SelectSeq(Cut(s, 4), LAMBDA c : c # 61))
                      v(i) == IF i <= n THEN Value(s[i]) ELSE 0
                  IN Cut(<<v(1) * 4 + (v(2) \div 16), (v(2) % 16) * 16 + (v(3) \div 4), (v(3) % 4) * 64 + v(4)>>, n - 1)
                     \o Decode(From(s, 5))
\* ---- hexadecimal
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 55 + x
RECURSIVE Hex(_)
Hex(s) == IF s = <<>> THEN <<>> ELSE <<HexDigit(s[1] \div 16), HexDigit(s[1] % 16)>> \o Hex(Tail(s))
HexValue(c) == IF c <= 57 THEN c - 48 ELSE c - 55
\* pairs of digits up to a zero byte, at most n of them
RECURSIVE Unhex(_, _)
Unhex(s, n) == IF n = 0 \/ Len(s) < 2 \/ s[1] = 0 \/ s[2] = 0 THEN <<>>
               ELSE <<HexValue(s[1]) * 16 + HexValue(s[2])>> \o Unhex(From(s, 3), n - 1)
\* ---- byte order
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* ---- MD5: 32-bit words as <<high half, low half>>
Plus(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Rot(a, n) == IF n >= 16 THEN LET x == <<a[2], a[1]>> IN
                  <<((x[1] * P2[n - 15]) % 65536) + (x[2] \div P2[33 - n]), ((x[2] * P2[n - 15]) % 65536) + (x[1] \div P2[33 - n])>>
             ELSE <<((a[1] * P2[n + 1]) % 65536) + (a[2] \div P2[17 - n]), ((a[2] * P2[n + 1]) % 65536) + (a[1] \div P2[17 - n])>>
Neg(x) == 65535 - x
Mix(r, x, y, z) == CASE r = 0 -> (x & y) | (Neg(x) & z)
                     [] r = 1 -> (x & z) | (y & Neg(z))
                     [] r = 2 -> (x ^^ y) ^^ z
                     [] r = 3 -> y ^^ (x | Neg(z))
K == <<
  <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>,
  <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
  <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>,
  <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
  <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>,
  <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
  <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>,
  <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
  <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>,
  <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
  <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>,
  <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
  <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>,
  <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
  <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>,
  <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
Turns == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
Index(i) == CASE i < 16 -> i [] i \in 16..31 -> (5 * i + 1) % 16 [] i \in 32..47 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
Word(m, j) == <<m[j + 4] * 256 + m[j + 3], m[j + 2] * 256 + m[j + 1]>>        \* the word at offset j
Round(m, s, i) ==
  LET r == i \div 16 a == s[1] b == s[2] c == s[3] d == s[4]
      f == <<Mix(r, b[1], c[1], d[1]), Mix(r, b[2], c[2], d[2])>>
      x == Rot(Plus(Plus(a, f), Plus(Word(m, Index(i) * 4), K[i + 1])), Turns[r + 1][1 + (i % 4)])
  IN <<d, Plus(b, x), b, c>>
Rounds(m, s) == FoldLeft(LAMBDA t, i : Round(m, t, i), s, [i \in 1..64 |-> i - 1])
Block(m, j) == SubSeq(m, 64 * j - 63, 64 * j)
Blocks(m, s) == FoldLeft(LAMBDA t, j : LET u == Rounds(Block(m, j), t) IN <<Plus(t[1], u[1]), Plus(t[2], u[2]), Plus(t[3], u[3]), Plus(t[4], u[4])>>,
                         s, [j \in 1..(Len(m) \div 64) |-> j])
Padded(m) == LET n == Len(m) z == (119 - (n % 64)) % 64 bits == n * 8 IN
             m \o <<128>> \o [i \in 1..z |-> 0] \o <<bits % 256, (bits \div 256) % 256, (bits \div 65536) % 256, 0, 0, 0, 0, 0>>
Start == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
LowHex(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Byte(x) == <<LowHex(x \div 16), LowHex(x % 16)>>
OfWord(w) == Byte(w[2] % 256) \o Byte(w[2] \div 256) \o Byte(w[1] % 256) \o Byte(w[1] \div 256)
Md5(m) == LET s == Blocks(Padded(m), Start) IN OfWord(s[1]) \o OfWord(s[2]) \o OfWord(s[3]) \o OfWord(s[4])
\* ---- what can be a password, and come back
Password(s) == Len(s) <= 20 /\ \A i \in 1..Len(s) : s[i] \in 32..126
=============================================================================
