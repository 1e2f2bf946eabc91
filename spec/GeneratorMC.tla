------------------------------ MODULE GeneratorMC ------------------------------
EXTENDS Generator, TLC
Init == \E a \in 0..4, b \in 0..4, c \in {0, 1, 2, 99} : GInit(a, b, c)
Next == GNew \/ (\E v \in 1..4 : GMake(v) \/ GVal(v)) \/ GEnd \/ GDone \/ (\E r \in {"exc", "end", "stopped"} : GRes(r))
Spec == Init /\ [][Next]_gvars
OnDemand == made <= seen + 1 /\ made <= take
InOrder == [][seen' \in {seen, seen + 1}]_gvars
ReleasedOnce == [][released => released']_gvars
=============================================================================
