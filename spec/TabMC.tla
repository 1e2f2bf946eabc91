-------------------------------- MODULE TabMC --------------------------------
(* Every table of at most N characters after its two first lines.             *)
EXTENDS Tab, FiniteSets, TLC
CONSTANTS N, Alphabet, Header
VARIABLES bytes
vars == <<bvars, bytes>>
Head2 == CASE Header = 1 -> <<73, 78, 84, 9, 83, 84, 82, 73, 78, 71, 10, 97, 9, 98, 10>>
           [] Header = 2 -> <<70, 76, 79, 65, 84, 9, 9, 73, 78, 84, 13, 10, 97, 9, 97, 10>>
Init == BInit /\ bytes = <<>>
Next == \/ /\ Len(bytes) < N
           /\ \E c \in Alphabet, ok \in BOOLEAN : bytes' = Append(bytes, c) /\ BOpen(Head2 \o Append(bytes, c), ok)
        \/ BSave /\ UNCHANGED bytes
        \/ disk # Nothing /\ BLoad(TRUE) /\ UNCHANGED bytes
Loaded == types # <<>>
Shape == \A r \in 1..Len(rows) : Len(rows[r]) = Len(types)
\* a search finds the first row that fits, and finds one whenever there is one
Finds == Loaded => \A c \in 0..(Len(types) - 1), l \in 0..(Len(rows) - 1) :
            LET f == Find(c, At(l, c)) IN f # -1 /\ f <= l /\ At(f, c) = At(l, c)
\* what is written as text says the same (rows without a text in front are dropped when read)
Kept(r) == ~(types[1] = "text" /\ (r[1] = <<>> \/ Head(r[1]) = 35))
TextAgain == Loaded => LET p == Parse(AsText) IN
               names # <<>> => p.ok /\ p.t.types = types /\ p.t.names = names /\ p.t.rows = SelectSeq(rows, Kept)
Saved == disk # Nothing => disk.types # <<>> /\ \A r \in 1..Len(disk.rows) : Len(disk.rows[r]) = Len(disk.types)
=============================================================================
