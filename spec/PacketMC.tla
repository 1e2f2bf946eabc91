------------------------------- MODULE PacketMC -------------------------------
(* Whatever is written is read back, by reads of the same kinds in the same      *)
(* order, exactly; reads of other kinds never reach past the end.                *)
EXTENDS Packet
CONSTANTS MAXW
VARIABLES wr,       \* what was written: <<kind, value>>
          rd        \* how many of them were read back; -1: reads went another way
mvars == <<kvars, wr, rd>>
Vals == {<<>>, <<0>>, <<7>>, <<0, 0, 0, 1>>, <<0, 0, 0, 0, 9>>}
Init == KInit /\ wr = <<>> /\ rd = 0
Write == /\ Len(wr) < MAXW /\ "w" \in fl
         /\ \E v \in Vals, k \in {"raw", "str"} :
              /\ (k = "raw" /\ KPutRaw(v, Len(v))) \/ (k = "str" /\ KPutStr(v, Len(v)))
              /\ wr' = Append(wr, <<k, v>>)
         /\ UNCHANGED rd
Match == /\ rd >= 0 /\ rd < Len(wr)
         /\ LET x == wr[rd + 1] IN
              \/ x[1] = "raw" /\ KRaw(Len(x[2]), Len(x[2]), x[2])
              \/ x[1] = "str" /\ KStr(Len(x[2]), 4 + Len(x[2]), x[2])
         /\ rd' = rd + 1 /\ UNCHANGED wr
Other == /\ "r" \in fl /\ Left > 0
         /\ \/ \E n \in 1..5 : \E r \in {0, n} : KNum(n, r, IF r = 0 THEN Zeros(n) ELSE At(off, n))
            \/ \E r \in 0..Left, d \in 0..Left : KStr(r, d, At(off + 4, r))
            \/ \E n \in 1..5 : \E r \in 0..n : KRemove(n, r)
         /\ rd' = -1 /\ UNCHANGED wr
Flags == \E f \in {"w", "r", "rq"} : f \notin fl /\ KFlag(f, TRUE) /\ UNCHANGED <<wr, rd>>
Next == Write \/ Match \/ Other \/ Flags
Spec == Init /\ [][Next]_mvars
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE (IF s[1][1] = "str" THEN B4(Len(s[1][2])) ELSE <<>>) \o s[1][2] \o Flat(Tail(s))
InBounds == off >= 0 /\ off <= Len(data)
DataIsWritten == data = Flat(wr)
ReadsMatch == rd >= 0 => off = Len(Flat(SubSeq(wr, 1, rd)))
\* reading back is always possible
CanRead == ("r" \in fl /\ rd >= 0 /\ rd < Len(wr)) => ENABLED Match
=============================================================================
