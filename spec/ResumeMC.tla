------------------------------- MODULE ResumeMC -------------------------------
EXTENDS Resume, TLC
K == [x \in {0, 1} |-> IF x = 0 THEN "worker" ELSE "inline"]
Init == PInit(K, [c \in {0, 1} |-> [start |-> IF c = 0 THEN -1 ELSE 0, thr |-> c = 1, n |-> 2]])
Th == {1, 2}
X == {0, 1}
Next == \/ Client(1)
        \/ Thr(0, 2)
        \/ \E c \in {0, 1} :
             \/ \E t \in Th : Start(c, cos[c].start, 1) \/ \E x \in X : cs[c].th = t /\ HopTo(c, x, t)
             \/ \E x \in X, t \in Th : On(c, x, t) \/ ErrOn(c, x, t)
             \/ Fin(c)
        \/ \E x \in X : Sd(x) \/ (x \in called /\ Sdr(x))
Spec == Init /\ [][Next]_pvars
OnRightThread == \A c \in DOMAIN cs : cs[c].ph = "run" /\ cs[c].x = 0 /\ called = {} => cs[c].th \in thr[0]
NotAfterDown == [][\A c \in DOMAIN cs : cs[c].ph \in {"hopping", "starting"} /\ cs[c].late /\ cs'[c].ph = "run" => cs[c].x \in called]_pvars
=============================================================================
