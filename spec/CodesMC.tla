------------------------------- MODULE CodesMC -------------------------------
(* The encodings are each other's inverses, over every short byte sequence   *)
(* of border values; the digest of the test vectors of RFC 1321.             *)
EXTENDS Codes, TLC
CONSTANTS Bytes, Longest
VARIABLE s
Init == s \in UNION {[1..k -> Bytes] : k \in 0..Longest}
Next == UNCHANGED s
NoZero(x) == \A i \in 1..Len(x) : x[i] # 0
Inv ==
  /\ Decode(Encode(s)) = s
  /\ Len(Encode(s)) = 4 * ((Len(s) + 2) \div 3)
  /\ Unhex(Hex(s), Len(s)) = s
  /\ Len(Hex(s)) = 2 * Len(s)
  /\ Unhex(Hex(s), 1) = Cut(s, 1)
  /\ Reversed(Reversed(s)) = s
  /\ Len(Md5(s)) = 32
  /\ Len(Padded(s)) % 64 = 0
\* no two letters are the same, and each has its value
ASSUME \A i, j \in 0..63 : Letter(i) = Letter(j) => i = j
ASSUME \A i \in 0..63 : Value(Letter(i)) = i
Same(n, c) == [i \in 1..n |-> c]
ASSUME Md5(<<>>) = <<100,52,49,100,56,99,100,57,56,102,48,48,98,50,48,52,101,57,56,48,48,57,57,56,101,99,102,56,52,50,55,101>>
ASSUME Md5(<<97>>) = <<48,99,99,49,55,53,98,57,99,48,102,49,98,54,97,56,51,49,99,51,57,57,101,50,54,57,55,55,50,54,54,49>>
ASSUME Md5(<<97,98,99>>) = <<57,48,48,49,53,48,57,56,51,99,100,50,52,102,98,48,100,54,57,54,51,102,55,100,50,56,101,49,55,102,55,50>>
ASSUME Md5(<<109,101,115,115,97,103,101,32,100,105,103,101,115,116>>) = <<102,57,54,98,54,57,55,100,55,99,98,55,57,51,56,100,53,50,53,97,50,102,51,49,97,97,102,49,54,49,100,48>>
ASSUME Md5(<<97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122>>) = <<99,51,102,99,100,51,100,55,54,49,57,50,101,52,48,48,55,100,102,98,52,57,54,99,99,97,54,55,101,49,51,98>>
ASSUME Md5(<<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,48,49,50,51,52,53,54,55,56,57>>) = <<100,49,55,52,97,98,57,56,100,50,55,55,100,57,102,53,97,53,54,49,49,99,50,99,57,102,52,49,57,100,57,102>>
ASSUME Md5(<<49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48>>) = <<53,55,101,100,102,52,97,50,50,98,101,51,99,57,53,53,97,99,52,57,100,97,50,101,50,49,48,55,98,54,55,97>>
ASSUME Md5(Same(55, 120)) = <<48,52,51,54,52,52,50,48,101,50,53,99,53,49,50,102,100,57,53,56,97,55,48,55,51,56,97,97,56,102,55,50>>
ASSUME Md5(Same(56, 120)) = <<54,54,56,97,55,50,100,53,98,97,49,55,102,48,56,101,54,50,100,97,98,99,97,102,97,100,54,100,98,49,52,98>>
ASSUME Md5(Same(63, 120)) = <<55,100,99,50,99,97,50,48,56,49,48,54,97,50,102,55,48,51,53,54,55,98,100,102,102,57,57,100,56,57,56,49>>
ASSUME Md5(Same(64, 120)) = <<99,49,98,98,52,102,56,49,100,56,57,50,98,50,100,53,55,57,52,55,54,56,50,97,101,98,50,53,50,52,53,54>>
ASSUME Md5(Same(119, 120)) = <<97,98,51,52,55,97,53,102,54,56,99,56,97,52,52,51,99,102,99,100,100,99,54,51,51,102,49,50,99,50,52,102>>
ASSUME Md5(Same(120, 120)) = <<102,98,57,56,54,54,55,102,57,56,48,57,54,100,101,57,50,54,50,48,98,54,52,102,52,54,101,49,99,53,98,53>>
ASSUME Md5(Same(128, 120)) = <<100,54,57,99,98,54,49,97,54,101,101,56,55,50,48,48,54,55,54,101,98,48,100,52,98,57,48,101,100,98,99,98>>
=============================================================================
