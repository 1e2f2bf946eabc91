------------------------------- MODULE Combine -------------------------------
(* Several producers of one-shot results, and what consumers that share a     *)
(* result or wait for all / any of several of them may observe.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES outs,   \* [p -> outcome chosen by producer p]
          pst,    \* [p -> "idle" | "busy" | "done" | "left"]
          ops,    \* pending operations: set of [k, op, a, early]
          taken,  \* results already consumed (when_*)
          wth,    \* the resume executor's thread (-1: not known)
          grp     \* the combination in progress: [op, n] or none
cvars == <<outs, pst, ops, taken, wth, grp>>
None == [op |-> "none", n |-> 0]

CInit(o) == /\ outs = o /\ pst = [p \in DOMAIN o |-> "idle"] /\ ops = {} /\ taken = {} /\ wth = -1 /\ grp = None
Pub(p)  == pst[p] \in {"done", "left"}
ProdCall(p) == pst[p] = "idle" /\ pst' = [pst EXCEPT ![p] = "busy"] /\ UNCHANGED <<outs, ops, taken, wth, grp>>
Publish(p)  == pst[p] = "busy" /\ pst' = [pst EXCEPT ![p] = "done"] /\ UNCHANGED <<outs, ops, taken, wth, grp>>
ProdRet(p)  == pst[p] = "done" /\ pst' = [pst EXCEPT ![p] = "left"] /\ UNCHANGED <<outs, ops, taken, wth, grp>>

\* ---- one result shared by many --------------------------------------------
SCall(k, o, a) == /\ \A x \in ops : x.k # k
                  /\ ops' = ops \cup {[k |-> k, op |-> o, a |-> a, early |-> ~Pub(1)]}
                  /\ UNCHANGED <<outs, pst, taken, wth, grp>>
SMay(x, r, d) ==
  CASE x.op = "empty"  -> r = "empty"
    [] x.op = "drop"   -> r = "ok"
    [] x.op = "status" -> \/ r = "idle" /\ x.early
                          \/ r = outs[1].st /\ Pub(1)
    [] x.op \in {"wait_for", "wait_until"}
                       -> \/ r = "idle" /\ x.early /\ d >= x.a
                          \/ r = outs[1].st /\ Pub(1)
    [] x.op = "wait"   -> r = "ok" /\ Pub(1)
    [] x.op = "resolve" -> r = outs[1].st /\ Pub(1)
    [] x.op \in {"get", "await"} -> r = outs[1].s /\ Pub(1)
    [] OTHER -> FALSE
SRet(k, r, d) == \E x \in ops : /\ x.k = k /\ SMay(x, r, d) /\ ops' = ops \ {x}
                                /\ UNCHANGED <<outs, pst, taken, wth, grp>>
SFinished == ops = {} /\ pst[1] = "left"

\* ---- all / any of several ---------------------------------------------------
WorkerIs(t) == wth' = t /\ UNCHANGED <<outs, pst, ops, taken, grp>>
GCall(o, n) == /\ grp.op = "none" /\ n = Cardinality(DOMAIN outs \ taken)
               /\ grp' = [op |-> o, n |-> n] /\ UNCHANGED <<outs, pst, ops, taken, wth>>
\* continues on the resume executor; `all` once every result is there, `any`
\* with the position of one that is there, and all results handed back
GRet(o, n, p, on, ex) ==
  /\ grp = [op |-> o, n |-> n]
  /\ ex = "worker" => on = wth
  /\ IF o = "all" THEN \A x \in DOMAIN outs : Pub(x) ELSE p \in DOMAIN outs \ taken /\ Pub(p)
  /\ grp' = None /\ UNCHANGED <<outs, pst, ops, taken, wth>>
GGot(p, s, r) == /\ p \in DOMAIN outs \ taken /\ Pub(p)
                 /\ s \in {"any", outs[p].st} /\ r = outs[p].s
                 /\ taken' = taken \cup {p} /\ UNCHANGED <<outs, pst, ops, wth, grp>>
GOver(ok) == ok = 1 /\ grp = None /\ (\A p \in DOMAIN outs : pst[p] = "left") /\ UNCHANGED cvars
=============================================================================
