--------------------------------- MODULE Dirs --------------------------------
(* Making directories: everything missing along a path is made, what is      *)
(* there stays, and nothing is made below a file.                            *)
EXTENDS Naturals, Sequences
VARIABLES dirs, files
dvars == <<dirs, files>>
DInit == dirs = {<<>>} /\ files = {}
Upto(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}
Blocked(p) == Upto(p) \cap files # {}
DMake(p, ok) == /\ ok = ~Blocked(p)
                /\ files' = files
                /\ IF ok THEN dirs' = dirs \cup Upto(p)
                   ELSE dirs' = dirs      \* the file is on the way: all above it is there already
DFile(p, ok) == /\ ok = (p \notin dirs \cup files /\ SubSeq(p, 1, Len(p) - 1) \in dirs)
                /\ dirs' = dirs /\ files' = IF ok THEN files \cup {p} ELSE files
Look(p) == IF p \in dirs THEN "dir" ELSE IF p \in files THEN "file" ELSE "none"
\* sanity
Closed == \A p \in dirs \cup files : p # <<>> => SubSeq(p, 1, Len(p) - 1) \in dirs
Apart  == dirs \cap files = {}
=============================================================================
