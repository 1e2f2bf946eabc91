--------------------------------- MODULE Tab ---------------------------------
(* A table of typed columns as a Tab object shows it.                         *)
(* Text: a line of types, a line of names, then rows of cells, all separated  *)
(* by tabs; empty lines, '#' lines and rows without a first cell do not       *)
(* count; a row that is too short ends with empty cells, what it has too much *)
(* is ignored.  A cell is a number, thousandths or a text.                    *)
EXTENDS Text
VARIABLES types, names, rows, index, disk   \* index: the indexed column; disk: what was last saved
bvars == <<types, names, rows, index, disk>>
Nothing == [types |-> <<>>, names |-> <<>>, rows |-> <<>>]
BInit == types = <<>> /\ names = <<>> /\ rows = <<>> /\ index = -1 /\ disk = Nothing
Lines(b) == LET p == Pieces(b, {10, 13})
                q == IF p[1] = <<>> /\ b # <<>> THEN <<<<>>>> ELSE <<>>   \* a blank first line is a line
            IN q \o NotEmpty(p)
TypeOf(t) == CASE t = <<73, 78, 84>> -> "int" [] t = <<70, 76, 79, 65, 84>> -> "float"
               [] t = <<83, 84, 82, 73, 78, 71>> -> "text" [] OTHER -> "bad"
Cell(t, s) == CASE t = "int" -> Integer(s) [] t = "float" -> Milli(s) [] t = "text" -> s
Pad(c, n) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE <<>>]
RowOf(ts, l) == LET c == Pad(Pieces(l, {9}), Len(ts)) IN [i \in 1..Len(ts) |-> Cell(ts[i], c[i])]
IsRow(l) == l # <<>> /\ Head(l) # 35 /\ Head(l) # 9
Parse(b) == LET L == Lines(b) IN
            IF Len(L) < 2 THEN [ok |-> FALSE, t |-> Nothing]
            ELSE LET h == NotEmpty(Pieces(L[1], {9}))
                     ts == [i \in 1..Len(h) |-> TypeOf(h[i])]
                     R == SelectSeq(SubSeq(L, 3, Len(L)), IsRow)
                 IN IF h = <<>> \/ \E i \in 1..Len(h) : ts[i] = "bad" THEN [ok |-> FALSE, t |-> Nothing]
                    ELSE [ok |-> TRUE, t |-> [types |-> ts, names |-> NotEmpty(Pieces(L[2], {9})),
                                              rows |-> [i \in 1..Len(R) |-> RowOf(ts, R[i])]]]
Set(t) == types' = t.types /\ names' = t.names /\ rows' = t.rows /\ index' = (IF t.types = <<>> THEN -1 ELSE 0) /\ UNCHANGED disk
BOpen(b, ok) == LET p == Parse(b) IN ok = p.ok /\ Set(p.t)
BIndex(c)    == index' = (IF c >= 0 /\ c < Len(types) THEN c ELSE index) /\ UNCHANGED <<types, names, rows, disk>>
\* names are not part of a binary file
BSave        == disk' = [types |-> types, names |-> <<>>, rows |-> rows] /\ UNCHANGED <<types, names, rows, index>>
BLoad(ok)    == ok = (disk.types # <<>>) /\ Set(disk)
\* lines and columns count from 0
InTable(l, c)  == l >= 0 /\ l < Len(rows) /\ c >= 0 /\ c < Len(types)
At(l, c)       == rows[l + 1][c + 1]
Where(c, v)    == {l \in 0..(Len(rows) - 1) : At(l, c) = v}
Least(S)       == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Column(n)      == Least({i - 1 : i \in {j \in 1..Len(names) : names[j] = n}})
\* the row a search finds, -1 for none
Find(c, v)     == IF c < 0 \/ c >= Len(types) THEN -1 ELSE Least(Where(c, v))
ByIndex(v)     == Least(Where(index, v))
\* written as text
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Abs(n) == IF n < 0 THEN -n ELSE n
DecMilli(m) == (IF m < 0 THEN <<45>> ELSE <<>>) \o Dec(Abs(m) \div 1000) \o <<46, 48 + ((Abs(m) \div 100) % 10), 48 + ((Abs(m) \div 10) % 10), 48 + (Abs(m) % 10)>>
TypeName(t) == CASE t = "int" -> <<73, 78, 84>> [] t = "float" -> <<70, 76, 79, 65, 84>> [] t = "text" -> <<83, 84, 82, 73, 78, 71>>
Show(t, v) == CASE t = "int" -> Dec(v) [] t = "float" -> DecMilli(v) [] t = "text" -> v
RECURSIVE Join(_, _, _)
Join(ss, sep, last) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o (IF Len(ss) = 1 THEN last ELSE sep) \o Join(Tail(ss), sep, last)
RECURSIVE Rows(_)
Rows(rs) == IF rs = <<>> THEN <<>>
            ELSE Join([i \in 1..Len(types) |-> Show(types[i], Head(rs)[i])], <<9>>, <<9>>) \o <<10>> \o Rows(Tail(rs))
AsText == Join([i \in 1..Len(types) |-> TypeName(types[i])], <<9>>, <<10>>) \o Join(names, <<9>>, <<10>>) \o Rows(rows)
=============================================================================
