------------------------------- MODULE TabTrace -------------------------------
EXTENDS TraceBase, Tab
vars == <<tvars, bvars>>
TInit == TBInit /\ BInit
Yes(b) == IF b THEN "yes" ELSE "no"
\* a cell as the recorder wrote it down: [i |-> number or thousandths] or [t |-> text]
Same(c, v) == IF types[c + 1] = "text" THEN "t" \in DOMAIN Ev /\ Ev.t = v ELSE "i" \in DOMAIN Ev /\ Ev.i = v
Step == \/ Ev.e = "open" /\ BOpen(Ev.b, Ev.ok = "yes")
        \/ Ev.e = "index" /\ BIndex(Ev.c)
        \/ Ev.e = "save" /\ BSave
        \/ Ev.e = "load" /\ BLoad(Ev.ok = "yes")
        \/ /\ UNCHANGED bvars
           /\ \/ Ev.e = "size" /\ Ev.r = Len(rows) /\ Ev.c = Len(types)
              \/ Ev.e = "type" /\ types[Ev.c + 1] = Ev.r
              \/ Ev.e = "name" /\ Ev.r = Yes(types # <<>> /\ Ev.c >= 0 /\ Ev.c < Len(names)) /\ (Ev.r = "yes" => Ev.t = names[Ev.c + 1])
              \/ Ev.e = "column" /\ Ev.r = Column(Ev.n)
              \/ Ev.e = "at" /\ Ev.ok = Yes(InTable(Ev.l, Ev.c)) /\ (Ev.ok = "yes" => Same(Ev.c, At(Ev.l, Ev.c)))
              \/ Ev.e = "named" /\ Ev.ok = Yes(InTable(Ev.l, Column(Ev.n))) /\ (Ev.ok = "yes" => Same(Column(Ev.n), At(Ev.l, Column(Ev.n))))
              \/ Ev.e = "byindex" /\ (index # -1 => (types[index + 1] = "int" => Ev.r = ByIndex(Ev.v))) /\ (index = -1 => Ev.r = -1)
              \/ Ev.e = "find" /\ Ev.r = Find(Ev.c, Ev.v)
              \/ Ev.e = "text" /\ Ev.b = AsText
              \/ Ev.e = "hostile"
              \/ Ev.e = "end"
TNext == Consume /\ Step
=============================================================================
