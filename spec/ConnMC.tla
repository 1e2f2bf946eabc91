------------------------------- MODULE ConnMC -------------------------------
(* Conn closed: every use of it by a few clients and packets.               *)
EXTENDS Conn
CONSTANTS NK, NT, SMax, CMax, Raw, Stops
Kind == [k \in 1..NK |-> IF k \in Raw THEN "raw" ELSE "conn"]
T == 1..NT
Ids == 1..SMax
Init == CInit(1..NK, T)
\* packets are used in order, to keep the state space small
Fresh == {t \in T : snd[t].st = "no" /\ \A u \in T : u < t => snd[u].st # "no"}
\* what the users of the two sides do
User == \/ \E k \in K : Conn(k, SMax, CMax, Kind)
        \/ \E k \in K : cup[k] = "up" /\ k \notin cask /\ Shut("C", k)
        \/ \E c \in Ids : HasCur(c) /\ ~ins[Cur(c)].ask /\ Shut("S", c)
        \/ \E t \in Fresh : \/ \E k \in K : cret[k] = "ok" /\ Snd("C", k, t)
                            \/ \E b \in busy : b[1] = "S" /\ ins[b[2]].up /\ Snd("S", ins[b[2]].id, t)
                            \/ Bc("S", t, Kind)
        \/ \E s \in Stops : stp[s] = "run" /\ Stop(s)
\* what the system answers
Sys == \/ \E k \in K, ok \in BOOLEAN : Connd(k, ok, Kind)
       \/ \E k \in K : (Kind[k] = "conn" /\ cret[k] = "open" /\ cup[k] = "no" /\ Up("C", k, SMax))
       \/ \E c \in Ids : (~HasCur(c) /\ Len(ins) < NK) /\ Up("S", c, SMax)
       \/ \E k \in K : Down("C", k)
       \/ \E c \in Ids : HasCur(c) /\ Down("S", c)
       \/ \E t \in T, ok \in BOOLEAN : snd[t].st = "open" /\ Sndd(t, ok)
       \/ \E t \in T, c \in Ids : Pk("S", c, t, TRUE, Kind)
       \/ \E t \in T, k \in K : Pk("C", k, t, TRUE, Kind)
       \/ \E b \in busy : IF b[1] = "C" THEN Pkd("C", b[2]) ELSE ins[b[2]].up /\ Pkd("S", ins[b[2]].id)
       \/ \E s \in {"S", "C"} : stp[s] = "open" /\ Stopd(s)
Next == User \/ Sys
Spec == Init /\ [][Next]_cvars
OneEach == /\ \A k \in K : Cardinality(Of(k)) <= 1
           /\ \A i, j \in UpIns : i # j => ins[i].id # ins[j].id
           /\ Cardinality(UpIns) <= SMax
Recv(s, r) == {g[3] : g \in {x \in got : x[1] = s /\ x[2] = r}}
Meant(t, s, r) == IF s = "S" THEN snd[t].s = "C" /\ (snd[t].c \in {0, ins[r].k})
                  ELSE snd[t].s = "S" /\ (snd[t].c = 0 \/ snd[t].c \in Of(r))
InOrder == /\ \A i \in I : \A t \in Recv("S", i) : Meant(t, "S", i) /\ snd[t].st \in {"open", "ok"}
           /\ \A k \in K : \A t \in Recv("C", k) : Meant(t, "C", k) /\ snd[t].st \in {"open", "ok"}
           \* of two packets one after the other to the same receiver the later does not come without the earlier
           /\ \A i \in I : \A t \in Recv("S", i) : \A u \in snd[t].pre :
                (snd[u].s = "C" /\ ins[i].k \in snd[u].must) => u \in Recv("S", i)
Ends == \A k \in K : cup[k] \in {"early", "down"} => EndOf(k)
\* a quiet system in which nothing ended has delivered everything
Calm == /\ \A k \in K : cret[k] \in {"none", "ok", "fail"} /\ (cret[k] = "ok" => cup[k] = "up" /\ Of(k) # {})
        /\ busy = {} /\ cask = {} /\ Running /\ \A i \in I : ins[i].up /\ ~ins[i].ask
Done == Settled([t \in T |-> 1], Kind, SMax, CMax, 0, 0, 0, 0, FALSE, FALSE)
=============================================================================
