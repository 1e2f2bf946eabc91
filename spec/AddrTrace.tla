------------------------------ MODULE AddrTrace -------------------------------
EXTENDS TraceBase, Addr
TInit == TBInit
Y(x) == x = "yes"
\* the recorded address is a: its parts, its text, and what its text reads back as
Shows(a, lis) ==
            /\ Ev.fam = IF a.four THEN "4" ELSE "6"
            /\ Ev.host = a.b /\ Ev.port = a.port /\ Y(Ev.full)
            /\ Literal(Ev.text) = a
            /\ Y(Ev.again) = (Parse(Ev.text, lis) = a)
            /\ LET n == IF a.four THEN Host4(Ev.name) ELSE Host6(Ev.name) IN n.ok /\ n.b = a.b
Step ==
  \/ /\ Ev.e = "parse" /\ LET a == Parse(Ev.s, Y(Ev.lis)) IN Y(Ev.ok) = a.ok /\ (a.ok => Shows(a, Y(Ev.lis)))
  \/ /\ Ev.e = "pair" /\ LET a == Pair2(Ev.s, Ev.p, Y(Ev.lis)) IN Y(Ev.ok) = a.ok /\ (a.ok => Shows(a, Y(Ev.lis)))
  \/ /\ Ev.e = "raw" /\ Y(Ev.ok) /\ Shows([ok |-> TRUE, four |-> Len(Ev.s) = 4, b |-> Ev.s, port |-> Ev.p], FALSE)
  \/ Ev.e = "bad" /\ ~Y(Ev.ok) /\ ~Parse(Ev.s, FALSE).ok
  \/ Ev.e = "unix" /\ Y(Ev.ok) /\ Ev.r = Ev.s
  \/ Ev.e = "broken" /\ Y(Ev.thrown) /\ Y(Ev.set)
  \/ Ev.e = "end"
TNext == Consume /\ Step
=============================================================================
