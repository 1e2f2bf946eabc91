----------------------------- MODULE ConsoleMC -----------------------------
EXTENDS Console
CONSTANT Ops
I == 1..3
T == {1, 2}
Name == <<"a", "a", "">>
VARIABLES left, seen
mvars == <<cvars, left, seen>>
MInit == CInit(I, T, [list |-> "l"]) /\ left = Ops /\ seen = {}
Begin(t, r) == left > 0 /\ left' = left - 1 /\ Call(t, r) /\ UNCHANGED seen
Starts == {i \in I : ~up[i] /\ nm[i] = "" /\ \A t \in T : pend[t].op \in {"start", "start2"} => pend[t].i # i}
Words == {<<"a">>, <<"unknown1", "b">>}
MNext == \E t \in T :
  \/ \E i \in Starts : Begin(t, [op |-> "start", i |-> i, name |-> Name[i]])
  \/ \E i \in I : Begin(t, [op |-> "stop", i |-> i])
  \/ \E w \in Words : Begin(t, [op |-> "cmd", cmd |-> "kill", w |-> w])
  \/ Begin(t, [op |-> "cmd", cmd |-> "killall", w |-> <<>>])
  \/ Begin(t, [op |-> "cmd", cmd |-> "list", w |-> <<>>])
  \/ Begin(t, [op |-> "cmd", cmd |-> "go", w |-> <<>>])
  \/ \E h \in {"1", "2"} : h \notin seen /\ left > 0 /\ left' = left - 1 /\ seen' = seen \cup {h} /\ Call(t, [op |-> "reg", cmd |-> "go", h |-> h, desc |-> ""])
  \/ Hid(t) /\ UNCHANGED <<left, seen>>
  \/ pend[t].op = "done" /\ Done(t, pend[t].r) /\ UNCHANGED <<left, seen>>
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in T : WF_mvars((Hid(t) \/ (pend[t].op = "done" /\ Done(t, pend[t].r))) /\ UNCHANGED <<left, seen>>)
\* a handler that was registered is there, and the last one wins
LastWins == seen = {"1"} /\ Resting => hs["go"] = "1"
Replaced == [][\A t \in T : pend[t].op = "reg" /\ pend'[t].op = "done" => hs'[pend[t].cmd] = pend[t].h]_mvars
Answered == \A t \in T : pend[t].op # "idle" ~> pend[t].op = "idle"
=============================================================================
