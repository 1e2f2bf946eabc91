---------------------------- MODULE ConsoleTrace ----------------------------
EXTENDS TraceBase, FiniteSets
Bug == ""
VARIABLES nets, up, nm, cnt, hs, ds, pend, con
C == INSTANCE Console
cvars == <<nets, up, nm, cnt, hs, ds, pend, con>>
vars == <<tvars, cvars>>
\* the console's own words: their descriptions are not judged, "?" stands for them
Own == {"list", "kill", "killall", "help"}
TInit == TBInit /\ C!CInit(1..Len(Scn.nets), 1..2, [x \in Own |-> "?"])
Range(s) == {s[k] : k \in 1..Len(s)}
\* a line of help against an expected one
LineOk(want, got) == want = got \/ \E x \in Own : want = x \o "\t?" /\ Len(got) > Len(x) /\ SubSeq(got, 1, Len(x) + 1) = x \o "\t"
RowOk(r, g) == /\ g.max = Scn.nets[r.i].max /\ g.mode = Scn.nets[r.i].mode
               /\ r.up => g.count = ToString(r.count)
ListOk(p) == LET rows == Ev.nets
                 mine == {k \in 1..Len(rows) : rows[k].name # "console"}
             IN /\ Ev.k = "list" /\ Ev.total = ToString(Cardinality(p.rows) + 1)
                /\ Len(rows) = Cardinality(p.rows) + 1
                /\ Cardinality(mine) = Cardinality(p.rows)
                /\ \A r \in p.rows : \E k \in mine : rows[k].name = r.name /\ RowOk(r, rows[k])
AnsOk(p) == CASE p.k = "unknown" -> Ev.k \in {"none", "closed"}
              [] p.k = "none" -> Ev.k = "none"
              [] p.k = "text" -> Ev.k \in {"text", "help"} /\ Ev.s = p.s
              [] p.k = "list" -> IF Ev.k = "list" THEN ListOk(p) ELSE FALSE
              [] p.k = "help" -> Ev.k = "help" /\ Len(Ev.ls) = Len(p.ls) /\ \A k \in 1..Len(p.ls) : LineOk(p.ls[k], Ev.ls[k])
              [] p.k = "helpall" -> Ev.k = "help" /\ Len(Ev.ls) = Cardinality(p.ls) /\ \A x \in p.ls : \E k \in 1..Len(Ev.ls) : LineOk(x, Ev.ls[k])
Num(s) == CHOOSE n \in 0..9 : ToString(n) = s
Step ==
  CASE Ev.e = "enable" -> Ev.r = (Ev.a = "good") /\ UNCHANGED cvars
    [] Ev.e = "start" -> C!Call(Ev.t, [op |-> "start", i |-> Ev.i, name |-> Scn.nets[Ev.i].name])
    [] Ev.e = "stop" -> C!Call(Ev.t, [op |-> "stop", i |-> Ev.i])
    [] Ev.e = "running" -> C!Call(Ev.t, [op |-> "running", i |-> Ev.i])
    [] Ev.e = "reg" -> C!Call(Ev.t, [op |-> "reg", cmd |-> Ev.cmd, h |-> ToString(Ev.h), desc |-> Ev.desc])
    [] Ev.e = "cmd" -> C!Call(Ev.t, [op |-> "cmd", cmd |-> Ev.cmd, w |-> Ev.w])
    [] Ev.e = "ret" -> C!Done(Ev.t, Ev.r)
    [] Ev.e = "ans" -> /\ IF pend[Ev.t].op = "done" THEN AnsOk(pend[Ev.t].r) ELSE FALSE
                       /\ C!Done(Ev.t, pend[Ev.t].r)
    [] Ev.e = "conn" -> UNCHANGED cvars
    [] Ev.e = "connd" -> (up[Ev.i] => Ev.ok) /\ C!Conn(Ev.i, Num(Scn.nets[Ev.i].max))
    [] Ev.e = "calm" -> C!Resting /\ UNCHANGED cvars
    [] Ev.e = "over" -> (\A i \in DOMAIN up : ~up[i]) /\ UNCHANGED cvars
    [] Ev.e = "ended" -> UNCHANGED cvars
    [] Ev.e = "end" -> UNCHANGED cvars
    [] OTHER -> FALSE
TNext == \/ Consume /\ Step
         \/ Hidden /\ \E t \in 1..2 : C!Hid(t)
=============================================================================
