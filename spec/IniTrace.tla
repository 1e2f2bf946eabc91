------------------------------- MODULE IniTrace -------------------------------
EXTENDS TraceBase, Ini
vars == <<tvars, ivars>>
TInit == TBInit /\ IInit
Yes(b) == IF b THEN "yes" ELSE "no"
Get == LET known == Known(Ev.s, Ev.k) IN
  CASE Ev.f = "int"    -> Ev.r = ToString(GInt(Ev.s, Ev.k, Ev.d))
    [] Ev.f = "intif"  -> Ev.r = ToString(GInt(Ev.s, Ev.k, Ev.d)) /\ Ev.ok = Yes(known)
    [] Ev.f = "float"  -> Ev.r = ToString(GMilli(Ev.s, Ev.k, Ev.d * 1000))
    [] Ev.f = "floatif"-> Ev.r = ToString(GMilli(Ev.s, Ev.k, Ev.d * 1000)) /\ Ev.ok = Yes(known)
    [] Ev.f = "str"    -> Ev.t = GStr(Ev.s, Ev.k, Ev.size, Ev.dt) /\ Ev.ok = Yes(known)
    [] Ev.f = "strif"  -> Ev.t = (IF known THEN GStr(Ev.s, Ev.k, Ev.size, <<>>) ELSE Cut(Ev.dt, Ev.size - 1)) /\ Ev.ok = Yes(known)
    [] Ev.f = "string" -> Ev.t = (IF known THEN Value(Ev.s, Ev.k) ELSE Ev.dt)
    [] Ev.f = "var"    -> Ev.t = (IF known THEN Value(Ev.s, Ev.k) ELSE Ev.dt)
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Step == \/ Ev.e = "open" /\ Ev.ok = "yes" /\ IOpen(Ev.b)
        \/ Ev.e = "missing" /\ Ev.ok = "no" /\ IClose
        \/ Ev.e = "close" /\ IClose
        \/ Ev.e = "get" /\ Get /\ UNCHANGED ivars
        \* everything that is there
        \/ Ev.e = "all" /\ SeqSet(Ev.secs) = secs
                        /\ {<<t[1], t[2], t[3]>> : t \in SeqSet(Ev.vals)} = vals
                        /\ UNCHANGED ivars
        \/ Ev.e = "end" /\ UNCHANGED ivars
TNext == Consume /\ Step
=============================================================================
