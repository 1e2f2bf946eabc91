--------------------------------- MODULE Rpc ---------------------------------
(* Remote calls over connections: the calling side asks, the function runs on  *)
(* the other side, the caller is told the outcome.  Calls are tokens.          *)
EXTENDS Integers, FiniteSets
VARIABLES call,   \* [token -> what is known of the asking]
          ran,    \* [token -> 0 | the number of the run]
          on,     \* tokens whose function is running
          ended,  \* connections whose end was asked for
          stp     \* [side -> "run" | "open" | "done"]
rvars == <<call, ran, on, ended, stp>>
T == DOMAIN call
RInit(N) == /\ call = [t \in 1..N |-> [st |-> "no", s |-> "C", c |-> 0, k |-> "", f |-> "", pre |-> {}]]
            /\ ran = [t \in 1..N |-> 0] /\ on = {} /\ ended = {}
            /\ stp = [s \in {"S", "C"} |-> "run"]
Valued == {"add", "echo", "list", "zero", "nest"}
Silent == {"note", "note3", "void0"}
\* functions that exist and get all their arguments (only the listener has functions)
Runs(t) == call[t].s = "C" /\ call[t].f \in Valued \cup Silent \cup {"boom"}
Over(c) == c \in ended \/ stp["S"] # "run" \/ stp["C"] # "run"
\* asked before and taken by the connection
Taken(c) == {u \in T : call[u].s = "C" /\ call[u].c = c /\ call[u].st \in {"asked", "told"}}
Ask(t, s, c, k, f) ==
  /\ call[t].st = "no"
  /\ call' = [call EXCEPT ![t] = [st |-> "asking", s |-> s, c |-> c, k |-> k, f |-> f, pre |-> Taken(c)]]
  /\ UNCHANGED <<ran, on, ended, stp>>
\* the asking returned (not for a call that waits); a notice tells whether it was taken
Askd(t, ok) ==
  /\ call[t].st = "asking" /\ call[t].k # "call"
  /\ ~ok => call[t].k = "ntf" /\ Over(call[t].c) /\ ran[t] = 0
  /\ call' = [call EXCEPT ![t].st = IF ok THEN (IF call[t].k = "ntf" THEN "told" ELSE "asked") ELSE "refused"]
  /\ UNCHANGED <<ran, on, ended, stp>>
\* a function runs for a call that was asked, once, with its arguments, one at a
\* time on a connection, after those asked before it
Run(t, n, good) ==
  /\ good /\ t \in T /\ Runs(t) /\ call[t].st \in {"asking", "asked", "told"} /\ ran[t] = 0
  /\ n > 0 /\ \A u \in T : ran[u] # n
  /\ stp["S"] # "done"
  /\ \A u \in on : call[u].c # call[t].c
  /\ \A u \in call[t].pre : (Runs(u) => ran[u] # 0)
  /\ ran' = [ran EXCEPT ![t] = n] /\ on' = on \cup {t}
  /\ UNCHANGED <<call, ended, stp>>
Rund(t) == t \in on /\ on' = on \ {t} /\ UNCHANGED <<call, ran, ended, stp>>
\* the caller is told
Ret(t, r, n, good, tmo) ==
  /\ call[t].k # "ntf" /\ call[t].st = IF call[t].k = "call" THEN "asking" ELSE "asked"
  /\ IF r = "val" THEN /\ good /\ Runs(t) /\ ran[t] # 0 /\ t \notin on /\ call[t].f # "boom"
                       /\ n = (IF call[t].f \in Valued THEN ran[t] ELSE 0)
     ELSE \/ ~Runs(t)
          \/ call[t].f = "boom" /\ ran[t] # 0 /\ t \notin on
          \/ Over(call[t].c)
          \/ call[t].k = "call" /\ tmo
  /\ call' = [call EXCEPT ![t].st = "told"]
  /\ UNCHANGED <<ran, on, ended, stp>>
Shut(c) == ended' = ended \cup {c} /\ UNCHANGED <<call, ran, on, stp>>
Stop(s) == stp' = [stp EXCEPT ![s] = IF @ = "run" THEN "open" ELSE @] /\ UNCHANGED <<call, ran, on, ended>>
Stopd(s) == /\ stp[s] # "run" /\ (s = "S" => on = {})
            /\ stp' = [stp EXCEPT ![s] = "done"] /\ UNCHANGED <<call, ran, on, ended>>
\* nothing is under way: what was asked for on a standing connection was done
Settled == /\ on = {}
           /\ \A t \in T : /\ call[t].st \in {"no", "told", "refused"}
                           /\ call[t].st = "told" /\ Runs(t) /\ ~Over(call[t].c) => ran[t] # 0
           /\ UNCHANGED <<call, ran, on, ended, stp>>
Finish == /\ on = {} /\ \A t \in T : call[t].st \in {"no", "told", "refused"}
          /\ UNCHANGED <<call, ran, on, ended, stp>>
=============================================================================
