------------------------------ MODULE Console ------------------------------
(* The engine's list of networks and its console.  A network is listed under *)
(* its name from its start to its stop, no two at once under one name; those *)
(* without a name get one nobody has.  Console commands are answered by the   *)
(* handler registered last for the word, with the other words; kill stops    *)
(* the listed networks it is given and names those it does not know, killall *)
(* stops all of them, and the console itself survives both.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Bug                 \* "" or a fault, to show that the properties notice it
VARIABLES nets,               \* name -> network, the list
          up,                 \* network -> does it run
          nm,                 \* network -> the name it was given
          cnt,                \* network -> clients
          hs,                 \* word -> handler
          ds,                 \* word -> description
          pend,               \* thread -> the call under way
          con                 \* does the console live
cvars == <<nets, up, nm, cnt, hs, ds, pend, con>>
Idle == [op |-> "idle"]
Builtin == [list |-> "list", kill |-> "kill", killall |-> "killall", help |-> "help"]
CInit(I, T, d0) ==
  /\ nets = <<>> /\ up = [i \in I |-> FALSE] /\ nm = [i \in I |-> ""] /\ cnt = [i \in I |-> 0]
  /\ hs = Builtin /\ ds = d0 /\ pend = [t \in T |-> Idle] /\ con = TRUE
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Rest == UNCHANGED <<nets, up, nm, cnt, hs, ds, con>>
\* ------------------------------------------------------------ calls
Call(t, r) == pend[t] = Idle /\ pend' = [pend EXCEPT ![t] = r] /\ Rest
Done(t, r) == pend[t].op = "done" /\ pend[t].r = r /\ pend' = [pend EXCEPT ![t] = Idle] /\ Rest
Fin(t, r) == pend' = [pend EXCEPT ![t] = [op |-> "done", r |-> r]]
Going(t, r) == pend' = [pend EXCEPT ![t] = r]
\* ------------------------------------------------------------ start
Fresh(want) == IF want # "" THEN {want} ELSE {n \in {"unknown" \o ToString(q) : q \in 1..9} : n \notin DOMAIN nets}
Start1(t) ==
  /\ pend[t].op = "start"
  /\ LET i == pend[t].i
     IN IF pend[t].name \in DOMAIN nets /\ pend[t].name # ""
        THEN Fin(t, "threw") /\ Rest
        ELSE \E n \in Fresh(pend[t].name) :
               /\ nets' = Put(nets, n, i) /\ nm' = [nm EXCEPT ![i] = n]
               /\ Going(t, [op |-> "start2", i |-> i])
               /\ UNCHANGED <<up, cnt, hs, ds, con>>
Start2(t) ==
  /\ pend[t].op = "start2"
  /\ up' = [up EXCEPT ![pend[t].i] = TRUE]
  /\ Fin(t, "ok") /\ UNCHANGED <<nets, nm, cnt, hs, ds, con>>
\* ------------------------------------------------------------ stop, kill
Unlist(i) == IF Bug # "unlist" /\ nm[i] \in DOMAIN nets /\ nets[nm[i]] = i THEN Drop(nets, nm[i]) ELSE nets
\* a queue of networks to stop, then the answer
StopOf(t, is, r) == [op |-> "stopq", q |-> is, r |-> r]
StopNext(t) ==
  /\ pend[t].op = "stopq"
  /\ IF pend[t].q = {} THEN Fin(t, pend[t].r) /\ Rest
     ELSE \E i \in pend[t].q :
            IF up[i] THEN /\ up' = [up EXCEPT ![i] = FALSE]
                          /\ Going(t, [op |-> "stopr", i |-> i, q |-> pend[t].q \ {i}, r |-> pend[t].r])
                          /\ UNCHANGED <<nets, nm, cnt, hs, ds, con>>
            ELSE Going(t, StopOf(t, pend[t].q \ {i}, pend[t].r)) /\ Rest
StopOff(t) ==
  /\ pend[t].op = "stopr"
  /\ nets' = Unlist(pend[t].i) /\ cnt' = [cnt EXCEPT ![pend[t].i] = 0]
  /\ Going(t, StopOf(t, pend[t].q, pend[t].r)) /\ UNCHANGED <<up, nm, hs, ds, con>>
Stop(t) == pend[t].op = "stop" /\ Going(t, StopOf(t, {pend[t].i}, "ok")) /\ Rest
Running(t) == pend[t].op = "running" /\ Fin(t, IF up[pend[t].i] THEN "yes" ELSE "no") /\ Rest
\* ------------------------------------------------------------ registration
Reg(t) ==
  /\ pend[t].op = "reg"
  /\ hs' = IF Bug = "keep" /\ pend[t].cmd \in DOMAIN hs THEN hs ELSE Put(hs, pend[t].cmd, pend[t].h)
  /\ IF pend[t].desc # "" THEN ds' = Put(ds, pend[t].cmd, pend[t].desc)
     ELSE ds' \in {ds, Drop(ds, pend[t].cmd)}
  /\ Fin(t, "ok") /\ UNCHANGED <<nets, up, nm, cnt, con>>
\* ------------------------------------------------------------ commands
Text(s) == [k |-> "text", s |-> s]
Silent == [k |-> "none", s |-> ""]
RECURSIVE Join(_, _)
Join(w, sep) == IF w = <<>> THEN "" ELSE Head(w) \o sep \o Join(Tail(w), sep)
Unknown(w) == SelectSeq(w, LAMBDA n : n \notin DOMAIN nets \/ n = "console")
Row(i) == [name |-> nm[i], i |-> i, up |-> up[i], count |-> cnt[i]]
HelpOf(w) == [k \in 1..Len(w) |-> w[k] \o "\t" \o ds[w[k]]]
Cmd(t) ==
  /\ pend[t].op = "cmd"
  /\ LET c == pend[t].cmd
         w == pend[t].w
     IN IF c \notin DOMAIN hs THEN Fin(t, [k |-> "unknown"]) /\ Rest
        ELSE LET h == hs[c]
             IN CASE h = "list" -> Fin(t, [k |-> "list", rows |-> {Row(nets[n]) : n \in DOMAIN nets}, con |-> con]) /\ Rest
                  [] h = "help" ->
                       IF w = <<>> THEN Fin(t, [k |-> "helpall", ls |-> {x \o "\t" \o ds[x] : x \in DOMAIN ds}]) /\ Rest
                       ELSE LET kn == SelectSeq(w, LAMBDA x : x \in DOMAIN ds)
                            IN Fin(t, IF kn = <<>> THEN Silent ELSE [k |-> "help", ls |-> HelpOf(kn)]) /\ Rest
                  [] h = "kill" /\ w # <<>> ->
                       LET bad == Unknown(w)
                       IN Going(t, StopOf(t, {nets[w[k]] : k \in {k \in 1..Len(w) : w[k] \in DOMAIN nets /\ w[k] # "console"}},
                                          Text(IF bad = <<>> THEN "ok" ELSE Join(bad, " ") \o "fails"))) /\ Rest
                  [] h = "killall" \/ (h = "kill" /\ w = <<>>) ->
                       /\ Going(t, StopOf(t, {nets[n] : n \in DOMAIN nets}, Text("ok")))
                       /\ con' = (Bug # "all") /\ UNCHANGED <<nets, up, nm, cnt, hs, ds>>
                  [] h = "0" -> Fin(t, Silent) /\ Rest
                  [] OTHER -> Fin(t, Text("h" \o h \o ":" \o Join(w, ";"))) /\ Rest
Conn(i, mx) == cnt' = [cnt EXCEPT ![i] = IF up[i] /\ cnt[i] < mx THEN cnt[i] + 1 ELSE cnt[i]] /\ UNCHANGED <<nets, up, nm, hs, ds, pend, con>>
Hid(t) == \/ Start1(t) \/ Start2(t) \/ Stop(t) \/ StopNext(t) \/ StopOff(t) \/ Running(t) \/ Reg(t) \/ Cmd(t)
\* ------------------------------------------------------------ properties
Resting == \A t \in DOMAIN pend : pend[t] = Idle
ListedAreUp == Resting => \A n \in DOMAIN nets : up[nets[n]] /\ nm[nets[n]] = n
UpAreListed == \A i \in DOMAIN up : up[i] => nm[i] \in DOMAIN nets /\ nets[nm[i]] = i
ConsoleLives == con
=============================================================================
