------------------------------ MODULE WordsTrace ------------------------------
EXTENDS TraceBase, Words
TInit == TBInit
Y(x) == x = "yes"
Step ==
  \/ Ev.e = "trim" /\ Ev.r = Trim(Ev.s, Ev.m)
  \/ Ev.e = "ltrim" /\ Ev.r = LTrim(Ev.s, Ev.m)
  \/ Ev.e = "rtrim" /\ Ev.r = RTrim(Ev.s, Ev.m)
  \/ Ev.e = "replace" /\ Ev.r = Replace(Ev.s, Ev.f, Ev.by, Ev.n)
  \/ Ev.e = "replaces" /\ Ev.r = Replaces(Ev.s, Ev.f, Ev.by, Ev.n)
  \/ Ev.e = "explode" /\ Ev.r = Explode(Ev.s, Ev.k, Y(Ev.one), Y(Ev.ign)) /\ Ev.n = Len(Ev.r)
  \/ Ev.e = "contains" /\ Y(Ev.r) = Contains(Ev.s, Ev.f)
  \/ Ev.e = "check" /\ Y(Ev.r) = Checked(Ev.s)
  \/ Ev.e = "upper" /\ Ev.r = Upper(Ev.s)
  \/ Ev.e = "lower" /\ Ev.r = Lower(Ev.s)
  \/ Ev.e = "slashes" /\ Ev.r = Slashed(Ev.s) /\ Ev.back = Ev.s
  \/ Ev.e = "copy" /\ Ev.r = Cut(Ev.s, Ev.n - 1) /\ Y(Ev.same) /\ Y(Ev.end)
  \/ Ev.e = "escape" /\ LET x == Escape(Ev.s, Ev.n) IN SubSeq(Ev.r, 1, Len(x)) = x
  \/ Ev.e = "module" /\ Y(Ev.part) /\ Ev.r = IF Ev.m < Ev.n THEN Ev.m ELSE Ev.n - 1
  \/ Ev.e = "dirname" /\ Ev.r = DirName(Ev.s)
  \/ Ev.e = "path" /\ Ev.r = Path(Ev.s, Ev.n, Y(Ev.unix))
  \/ Ev.e = "complete" /\ Ev.r = Complete(Ev.s, Ev.n, Ev.d)
  \/ Ev.e = "size" /\ Ev.r \in Sizes(Ev.v)
  \/ Ev.e = "number" /\ Ev.r = NumberOf(Ev.s)
  \/ /\ Ev.e = "halves"
     /\ Ev.v3 = Ev.h1 /\ Ev.v2 = Ev.h0 /\ Ev.v1 = Ev.l1 /\ Ev.v0 = Ev.l0
     /\ Ev.a1 = Ev.h1 /\ Ev.a0 = Ev.h0 /\ Ev.b1 = Ev.l1 /\ Ev.b0 = Ev.l0
  \/ Ev.e = "time" /\ Ev.r = Time(Ev.v)
  \/ Ev.e = "end"
TNext == Consume /\ Step
=============================================================================
