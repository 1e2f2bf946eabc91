-------------------------------- MODULE IniMC --------------------------------
(* Every file of at most N characters.  What has been read is written again  *)
(* in any order of its sections and lines and read back the same; what a     *)
(* file says before does not depend on what follows.                         *)
EXTENDS Ini, FiniteSets, TLC
CONSTANTS N, Alphabet
VARIABLES bytes, before
vars == <<ivars, bytes, before>>
Init == IInit /\ bytes = <<>> /\ before = [secs |-> {}, vals |-> {}]
Next == \/ /\ Len(bytes) < N
           /\ \E c \in Alphabet :
                /\ bytes' = Append(bytes, c)
                /\ before' = (IF c = 10 THEN [secs |-> Read(bytes).secs, vals |-> Read(bytes).vals] ELSE before)
                /\ IOpen(Append(bytes, c))
        \/ open /\ IClose /\ UNCHANGED <<bytes, before>>
\* a key has one value, and its section is known
OneValue == \A t, u \in vals : t[1] = u[1] /\ t[2] = u[2] => t = u
InSection == \A t \in vals : t[1] \in secs
\* lines that are complete are not changed by what follows
Prefix == open => before.secs \subseteq secs /\ before.vals \subseteq vals
Clean == \A t \in vals : 61 \notin {t[2][i] : i \in 1..Len(t[2])} /\ 59 \notin {t[3][i] : i \in 1..Len(t[3])}
\* written and read again
RECURSIVE Write(_)
Write(S) == IF S = {} THEN <<>>
            ELSE LET t == CHOOSE x \in S : TRUE IN <<91>> \o t[1] \o <<93, 10>> \o t[2] \o <<61>> \o t[3] \o <<10>> \o Write(S \ {t})
RECURSIVE Heads(_)
Heads(S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE x \in S : TRUE IN <<91>> \o n \o <<93, 10>> \o Heads(S \ {n})
Again == open => LET r == Read(Heads(secs) \o Write(vals)) IN r.secs = secs /\ r.vals = vals
=============================================================================
