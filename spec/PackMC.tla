-------------------------------- MODULE PackMC --------------------------------
(* The packed form of numbers is unambiguous: the shortest form, with a code      *)
(* before a single byte that would be taken for one, is read back exactly         *)
(* whatever follows.  ESC = FALSE: without that exception, which fails.           *)
EXTENDS Pack
CONSTANTS ESC
VARIABLES bytes
mvars == <<pvars, bytes>>
Bs == {0, 1, 2, 3, 4, 5, 6, 7, 8, 25, 26, 127, 128, 255}
Fits(t, v, w) == v = Ext(t, SubSeq(v, 9 - w, 8))
Shortest(t, v) == CHOOSE w \in {1, 2, 4, 8} : Fits(t, v, w) /\ \A x \in {1, 2, 4, 8} : x < w => ~Fits(t, v, x)
Clash(t, b) == \E w \in {1, 2, 4, 8} : b = Code(t)[w]
Enc(t, v) == LET w == Shortest(t, v) IN
             IF w = 1 /\ (t \in Signed \/ v[8] < 128) /\ ~(ESC /\ Clash(t, v[8])) THEN <<v[8]>>
             ELSE <<Code(t)[w]>> \o SubSeq(v, 9 - w, 8)
Values(t) == LET w == Width(t) IN
  {Ext(t, <<b>>) : b \in Bs} \cup
  (IF w >= 2 THEN {Ext(t, <<a, b>>) : a \in Bs, b \in {0, 1, 255}} ELSE {}) \cup
  (IF w >= 4 THEN {Ext(t, <<a, b, c, 2>>) : a \in {0, 127, 128, 255}, b \in {0, 128, 255}, c \in {0, 127, 128, 255}} ELSE {}) \cup
  (IF w >= 8 THEN {<<a, 255, 0, 1, b, 7, 8, 128>> : a \in {0, 127, 128, 255}, b \in {0, 128, 255}} ELSE {})
Init == PInit /\ bytes = <<>>
Put == /\ Len(vals) < 2
       /\ \E t \in Numbers : \E v \in Values(t) :
            /\ vals' = Append(vals, [t |-> t, v |-> v, end |-> Len(bytes) + Len(Enc(t, v))])
            /\ bytes' = bytes \o Enc(t, v) /\ cut' = Len(bytes')
       /\ UNCHANGED <<nxt, st>>
Next == Put
Spec == Init /\ [][Next]_mvars
\* reading back by the same kinds gives the values
RECURSIVE Back(_, _)
Back(k, b) == IF k > Len(vals) THEN b = <<>>
              ELSE b # <<>> /\ LET d == Dec(vals[k].t, b) IN d[2] > 0 /\ d[1] = vals[k].v /\ Back(k + 1, SubSeq(b, d[2] + 1, Len(b)))
Exact == Back(1, bytes)
=============================================================================
