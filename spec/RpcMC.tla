-------------------------------- MODULE RpcMC --------------------------------
EXTENDS Rpc
CONSTANTS N, Conns
F == {"add", "note", "boom", "nope"}
Kinds == {"call", "async", "ntf"}
Init == RInit(N)
Fresh == {t \in T : call[t].st = "no" /\ \A u \in T : u < t => call[u].st # "no"}
Count == Cardinality({t \in T : ran[t] # 0})
Next == \/ \E t \in Fresh, c \in Conns, k \in Kinds, f \in F : Ask(t, "C", c, k, f)
        \/ \E t \in Fresh, c \in Conns : Ask(t, "S", c, "async", "add")
        \/ \E t \in T, ok \in BOOLEAN : Askd(t, ok)
        \/ \E t \in T : Run(t, Count + 1, TRUE) \/ Rund(t)
        \/ \E t \in T, r \in {"val", "err"} : call[t].st \in {"asking", "asked"} /\ Ret(t, r, IF call[t].f = "add" THEN ran[t] ELSE 0, TRUE, FALSE)
        \/ \E c \in Conns \ ended : Shut(c)
        \/ \E s \in {"S", "C"} : (stp[s] = "run" /\ Stop(s)) \/ (stp[s] = "open" /\ Stopd(s))
Spec == Init /\ [][Next]_rvars
OneRun == \A t, u \in T : t # u /\ ran[t] # 0 => ran[t] # ran[u]
OneAtATime == \A t, u \in on : t # u => call[t].c # call[u].c
InOrder == \A t \in T : ran[t] # 0 => \A u \in call[t].pre : Runs(u) => ran[u] # 0 /\ ran[u] < ran[t]
OnlyAsked == \A t \in T : ran[t] # 0 => Runs(t) /\ call[t].st # "no" /\ call[t].st # "refused"
=============================================================================
