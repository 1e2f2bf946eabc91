------------------------------ MODULE VarsTrace -------------------------------
EXTENDS TraceBase
Slots == 3
VARIABLE v
INSTANCE Vars
TInit == TBInit /\ VInit
Y(x) == x = "yes"
RECURSIVE Shown(_)
Shown(n) == IF n < 0 THEN <<45>> \o Shown(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Shown(n \div 10) \o <<48 + (n % 10)>>
Step ==
  \/ Ev.e = "set" /\ VSet(Ev.a, Ev.x)
  \/ Ev.e = "copy" /\ VCopy(Ev.a, Ev.b)
  \/ Ev.e = "op" /\ Y(Ev.same) /\ VOp(Ev.o, Ev.a, AsNumber(v[Ev.b]))
  \/ Ev.e = "opn" /\ Y(Ev.same) /\ VOp(Ev.o, Ev.a, Ev.x)
  \/ Ev.e = "step" /\ Y(Ev.same) /\ VStep(Ev.a, Ev.n)
  \/ Ev.e = "post" /\ Ev.r = v[Ev.a] /\ VStep(Ev.a, Ev.n)
  \/ /\ UNCHANGED v
     /\ \/ Ev.e = "look" /\ Ev.r = v[Ev.a]
        \/ Ev.e = "get" /\ Ev.r = Get(Ev.a, Ev.k)
        \/ Ev.e = "chars" /\ Ev.r = v[Ev.a].s
        \/ Ev.e = "convert" /\ Ev.i = Whole(AsInt(v[Ev.a])) /\ Ev.d = AsNumber(v[Ev.a])
        \/ /\ Ev.e = "compare" /\ <<Y(Ev.eq), Y(Ev.lt), Y(Ev.gt)>> \in Compared(v[Ev.a], v[Ev.b])
           /\ Y(Ev.ne) = ~Y(Ev.eq) /\ Y(Ev.le) = (Y(Ev.lt) \/ Y(Ev.eq)) /\ Y(Ev.ge) = (Y(Ev.gt) \/ Y(Ev.eq))
        \/ Ev.e = "print" /\ Ev.r = IF v[Ev.a].k = "str" THEN v[Ev.a].s ELSE Shown(v[Ev.a].v.m)
        \/ Ev.e = "end"
TNext == Consume /\ Step
=============================================================================
