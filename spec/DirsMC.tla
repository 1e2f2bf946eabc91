-------------------------------- MODULE DirsMC --------------------------------
EXTENDS Dirs
CONSTANTS Names, Depth
Paths == UNION {[1..n -> Names] : n \in 1..Depth}
Init == DInit
Next == \E p \in Paths, ok \in BOOLEAN : DMake(p, ok) \/ DFile(p, ok)
Inv == Closed /\ Apart /\ \A f \in files : \A d \in dirs : f \notin Upto(d)
\* nothing ever disappears
Keeps == [][dirs \subseteq dirs' /\ files \subseteq files']_dvars
=============================================================================
