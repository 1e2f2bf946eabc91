--------------------------------- MODULE Conn ---------------------------------
(* Connections between a connector (side "C") and a listener (side "S").       *)
(* Client connections are numbered; every accepted connection is an instance.  *)
(* Which client an instance belongs to shows when its first packet arrives.    *)
(* Packets are tokens; a send or broadcast is open between call and return.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Asp          \* the requirements judged, out of {"data", "life"}
VARIABLES cret,   \* [client -> "none" | "open" | "ok" | "fail"]   its connect call
          cup,    \* [client -> "no" | "up" | "early" | "down"]    its callbacks
                  \* ("early": it has ended before its connect callback ran)
          cask,   \* clients whose end was asked for on their side
          risk,   \* clients that found the listener full at some time
          crisk,  \* clients that found the connector full at some time
          ins,    \* instances, in order of acceptance
          snd,    \* [token -> what is known of its sending]
          got,    \* <<side, receiver, token>> handed over so far
          busy,   \* <<side, receiver>> whose handler is running
          stp,    \* [side -> "run" | "open" | "done"]
          nm,     \* names given: <<side, receiver, name>>
          lost    \* some connection has ended
cvars == <<cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, nm, lost>>
Req(a, P) == a \in Asp => P

CInit(K, T) ==
  /\ cret = [k \in K |-> "none"] /\ cup = [k \in K |-> "no"] /\ cask = {} /\ risk = {} /\ crisk = {}
  /\ ins = <<>> /\ got = {} /\ busy = {} /\ nm = {} /\ lost = FALSE
  /\ snd = [t \in T |-> [st |-> "no", s |-> "C", c |-> 0, pre |-> {}, must |-> {}]]
  /\ stp = [s \in {"S", "C"} |-> "run"]

K == DOMAIN cret
I == DOMAIN ins
UpIns == {i \in I : ins[i].up}
Cur(id) == CHOOSE i \in UpIns : ins[i].id = id
HasCur(id) == \E i \in UpIns : ins[i].id = id
Of(k) == {i \in I : ins[i].k = k}                 \* at most one
Bound == {ins[i].k : i \in I} \ {0}
Running == stp["S"] = "run" /\ stp["C"] = "run"
Begun == {k \in K : cret[k] # "none"}
Using == {k \in K : cret[k] \in {"open", "ok"} /\ cup[k] \in {"no", "up"}}
\* the listener may be full for these: more wanted than there are places
Full(u, i, m) == Cardinality(i) + Cardinality({k \in u : k \notin Bound}) > m
Risky(smax) == IF Full(Using', {i \in DOMAIN ins' : ins'[i].up}, smax)
               THEN risk \cup {k \in Using' : \A i \in DOMAIN ins' : ins'[i].k # k} ELSE risk

\* ---- connecting --------------------------------------------------------------
Conn(k, smax, cmax, kind) ==
  /\ cret[k] = "none" /\ cret' = [cret EXCEPT ![k] = "open"]
  /\ UNCHANGED <<cup, cask, ins, snd, got, busy, stp, nm, lost>>
  /\ risk' = Risky(smax)
  /\ crisk' = IF Cardinality({j \in Using' : kind[j] = "conn"}) > cmax THEN crisk \cup {j \in K : cret'[j] = "open"} ELSE crisk
Connd(k, ok, kind) ==
  /\ cret[k] = "open"
  /\ cret' = [cret EXCEPT ![k] = IF ok THEN "ok" ELSE "fail"]
  /\ cup' = IF kind[k] = "raw" /\ ok THEN [cup EXCEPT ![k] = "up"] ELSE cup
  /\ Req("life", IF ok THEN cup'[k] \in {"up", "down"} ELSE cup[k] = "no" /\ (k \in crisk \/ ~Running))
  /\ UNCHANGED <<cask, risk, crisk, ins, snd, got, busy, stp, nm, lost>>
Up(s, c, smax) ==
  /\ \/ /\ s = "C" /\ c \in K
        /\ Req("life", cret[c] = "open" /\ cup[c] \in {"no", "early"})
        /\ cup' = [cup EXCEPT ![c] = IF @ = "no" THEN "up" ELSE "down"] /\ UNCHANGED ins
     \/ /\ s = "S"
        /\ Req("life", stp["S"] # "done")
        /\ Req("life", ~HasCur(c) /\ Cardinality(UpIns) < smax /\ Len(ins) < Cardinality(Begun))
        /\ ins' = Append(ins, [id |-> c, up |-> TRUE, k |-> 0, ask |-> FALSE])
        /\ UNCHANGED cup
  /\ UNCHANGED <<cret, cask, crisk, snd, got, busy, stp, nm, lost>>
  /\ risk' = Risky(smax)

\* ---- ending --------------------------------------------------------------------
\* somebody asked for the end of client k's connection
EndOf(k) == k \in cask \/ (\E i \in Of(k) : ins[i].ask \/ ~ins[i].up) \/ (Of(k) = {} /\ k \in risk) \/ ~Running
EndOfIns(i) == \/ ins[i].ask \/ ~Running
               \/ ins[i].k # 0 /\ (ins[i].k \in cask \/ cup[ins[i].k] \in {"early", "down"})
               \/ ins[i].k = 0 /\ \E k \in Begun \ Bound : k \in cask \/ cup[k] \in {"early", "down"}
Shut(s, c) ==
  /\ IF s = "C" THEN cask' = cask \cup {c} /\ UNCHANGED ins
                ELSE HasCur(c) /\ ins' = [ins EXCEPT ![Cur(c)].ask = TRUE] /\ UNCHANGED cask
  /\ UNCHANGED <<cret, cup, risk, crisk, snd, got, busy, stp, nm, lost>>
Down(s, c) ==
  /\ Req("life", stp[s] # "done")
  /\ lost' = TRUE
  /\ \/ /\ s = "C" /\ c \in K
        /\ Req("life", (cup[c] = "up" \/ (cup[c] = "no" /\ cret[c] = "open")) /\ EndOf(c) /\ <<"C", c>> \notin busy)
        /\ Req("data", EndOf(c))
        /\ cup' = [cup EXCEPT ![c] = IF @ = "no" THEN "early" ELSE "down"] /\ UNCHANGED ins
     \/ /\ s = "S"
        /\ Req("life", HasCur(c) /\ EndOfIns(Cur(c)) /\ <<"S", Cur(c)>> \notin busy)
        /\ Req("data", HasCur(c) => EndOfIns(Cur(c)))
        /\ ins' = IF HasCur(c) THEN [ins EXCEPT ![Cur(c)].up = FALSE] ELSE ins
        /\ UNCHANGED cup
  /\ UNCHANGED <<cret, cask, risk, crisk, snd, got, busy, stp, nm>>
Stop(s) == /\ stp' = [stp EXCEPT ![s] = IF @ = "run" THEN "open" ELSE @]
           /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, busy, nm, lost>>
Stopd(s) == /\ stp[s] # "run" /\ stp' = [stp EXCEPT ![s] = "done"]
            /\ Req("life", \A b \in busy : b[1] # s)
            /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, busy, nm, lost>>

\* ---- packets ---------------------------------------------------------------------
Returned == {t \in DOMAIN snd : snd[t].st = "ok"}
Snd(s, c, t) ==
  /\ snd[t].st = "no"
  /\ s = "S" => HasCur(c)
  /\ LET r == IF s = "S" THEN Cur(c) ELSE c IN
     snd' = [snd EXCEPT ![t] = [st |-> "open", s |-> s, c |-> r, pre |-> Returned, must |-> {r}]]
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, got, busy, stp, nm, lost>>
\* to everybody who is connected at the time
Bc(s, t, kind) ==
  /\ snd[t].st = "no"
  /\ snd' = [snd EXCEPT ![t] = [st |-> "open", s |-> s, c |-> 0, pre |-> Returned,
                                must |-> IF s = "S" THEN UpIns ELSE {k \in K : kind[k] = "conn" /\ cret[k] = "ok" /\ cup[k] = "up"}]]
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, got, busy, stp, nm, lost>>
Sndd(t, ok) ==
  /\ snd[t].st = "open" /\ snd' = [snd EXCEPT ![t].st = IF ok THEN "ok" ELSE "fail"]
  /\ Req("data", ~ok => /\ \A g \in got : g[3] # t
                        /\ IF snd[t].c = 0 THEN FALSE ELSE IF snd[t].s = "C" THEN EndOf(snd[t].c) ELSE EndOfIns(snd[t].c))
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, got, busy, stp, nm, lost>>

\* token t may be handed over to instance i as a packet of client k
Fits(i, k, t) ==
  /\ snd[t].s = "C" /\ snd[t].st \in {"open", "ok"} /\ (snd[t].c = 0 \/ snd[t].c = k)
  /\ k \in Begun /\ (ins[i].k = k \/ (ins[i].k = 0 /\ k \notin Bound))
  \* a client that was turned away has no instance
  /\ ins[i].k = 0 /\ cup[k] \in {"early", "down"} => k \in cask \/ ins[i].ask \/ ~Running
  /\ <<"S", i, t>> \notin got
  /\ \A u \in snd[t].pre : snd[u].s = "C" /\ k \in snd[u].must => <<"S", i, u>> \in got
FitsC(k, t) ==
  /\ snd[t].s = "S" /\ snd[t].st \in {"open", "ok"}
  /\ IF snd[t].c = 0 THEN TRUE ELSE ins[snd[t].c].k = k
  /\ <<"C", k, t>> \notin got
  /\ \A u \in snd[t].pre : snd[u].s = "S" /\ (\E i \in Of(k) : i \in snd[u].must) => <<"C", k, u>> \in got
Pk(s, c, t, good, kind) ==
  /\ Req("data", good /\ t \in DOMAIN snd)
  /\ Req("life", stp[s] # "done")
  /\ t \in DOMAIN snd
  /\ \/ /\ s = "S" /\ HasCur(c)
        /\ LET i == Cur(c) IN
           /\ Req("data", <<"S", i>> \notin busy)
           /\ \E k \in K : /\ Fits(i, k, t) /\ ins' = [ins EXCEPT ![i].k = k]
           /\ got' = got \cup {<<"S", i, t>>} /\ busy' = busy \cup {<<"S", i>>}
     \/ /\ s = "C" /\ c \in K /\ kind[c] = "conn" /\ FitsC(c, t)
        /\ Req("data", <<"C", c>> \notin busy)
        /\ Req("life", cup[c] = "up" \/ (cup[c] = "no" /\ cret[c] = "open"))
        /\ got' = got \cup {<<"C", c, t>>} /\ busy' = busy \cup {<<"C", c>>}
        /\ UNCHANGED ins
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, snd, stp, nm, lost>>
Pkd(s, c) ==
  /\ LET r == IF s = "C" THEN c ELSE IF HasCur(c) THEN Cur(c) ELSE 0 IN
     /\ Req("life", <<s, r>> \in busy)
     /\ busy' = busy \ {<<s, r>>}
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, stp, nm, lost>>

\* ---- names -----------------------------------------------------------------------
Named(s, r) == {n[3] : n \in {x \in nm : x[1] = s /\ x[2] = r}}
Who(s, c) == IF s = "C" THEN c ELSE IF HasCur(c) THEN Cur(c) ELSE 0
Name(s, c, v) ==
  /\ LET r == Who(s, c) IN
     Req("life", \/ Named(s, r) = {} /\ v = "def"
                 \/ v \in Named(s, r)
                 \/ v = "" /\ (IF s = "C" THEN EndOf(c) ELSE r # 0 => EndOfIns(r)))
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, nm, lost>>
SetName(s, c, v) ==
  /\ nm' = {x \in nm : ~(x[1] = s /\ x[2] = Who(s, c))} \cup {<<s, Who(s, c), v>>}
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, lost>>

\* ---- nothing is under way --------------------------------------------------------
Alive(k) == cret[k] = "ok" /\ cup[k] = "up"
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x[3]] + Sum(S \ {x}, f)
Settled(size, kind, smax, cmax, ss, sr, cs, cr, sf, cf) ==
  /\ Req("data", /\ busy = {}
                 /\ \A t \in Returned : \A r \in snd[t].must :
                      IF snd[t].s = "C" THEN Alive(r) => \E i \in Of(r) : <<"S", i, t>> \in got
                      ELSE ins[r].up /\ ins[r].k # 0 /\ kind[ins[r].k] = "conn" /\ Alive(ins[r].k) => <<"C", ins[r].k, t>> \in got
                 /\ (\A k \in K : kind[k] = "conn") =>
                      \A t \in {t \in Returned : snd[t].s = "S"} :
                        Cardinality({i \in snd[t].must : ins[i].up /\ ins[i].k = 0})
                          <= Cardinality({k \in K \ Bound : Alive(k) /\ <<"C", k, t>> \in got})
                 /\ (~lost /\ Running) =>
                      /\ sr = Sum({g \in got : g[1] = "S"}, size) + 6 * Cardinality({g \in got : g[1] = "S"})
                      /\ (\A k \in K : kind[k] = "conn") =>
                           /\ cs = sr /\ cr = ss
                           /\ ss = Sum({g \in got : g[1] = "C"}, size) + 6 * Cardinality({g \in got : g[1] = "C"}))
  /\ Req("life", /\ \A k \in K : cret[k] = "ok" => (Alive(k) <=> cup[k] = "up")
                 /\ \A k \in K : cret[k] # "open"
                 /\ \A k \in cask : cup[k] = "down"
                 /\ \A i \in UpIns : ~ins[i].ask /\ (ins[i].k # 0 => Alive(ins[i].k))
                 /\ Cardinality(UpIns) = Cardinality({k \in K : Alive(k)})
                 /\ \A k \in K : Alive(k) => \A i \in Of(k) : ins[i].up
                 /\ sf = (Cardinality(UpIns) >= smax)
                 /\ cf = (Cardinality({k \in K : Alive(k) /\ kind[k] = "conn"}) >= cmax))
  /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, nm, lost>>
Over == stp["S"] = "done" /\ stp["C"] = "done" /\ UNCHANGED <<cret, cup, cask, risk, crisk, ins, snd, got, busy, stp, nm, lost>>
=============================================================================
