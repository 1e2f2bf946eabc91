------------------------------- MODULE MemLeaf -------------------------------
(* One leaf of a memory pool: blocks are cut from its end, the returned bytes are *)
(* counted, and the leaf starts anew when all of it has been returned.           *)
(* Bug "none": both counters in one word.  "two": two counters, changed one      *)
(* after the other (as found).  "late": the header of a returned block is        *)
(* cleared after the bytes were counted.  "under": a failed reservation is not   *)
(* taken back.                                                                   *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Size, Per, Bug
VARIABLES avail, dealloc, own, hdr, pc, at, sz, seen, cnt
vars == <<avail, dealloc, own, hdr, pc, at, sz, seen, cnt>>
\* own: byte -> thread using it; hdr: byte -> header there belongs to (0: cleared)
B == 0..Size - 1
Init == /\ avail = Size /\ dealloc = 0 /\ own = [b \in B |-> 0] /\ hdr = [b \in B |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 0] /\ sz = [t \in Threads |-> 0]
        /\ seen = [t \in Threads |-> 0] /\ cnt = [t \in Threads |-> 0]
Range(t) == at[t] .. at[t] + sz[t] - 1
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Ask(t, n) == /\ pc[t] = "idle" /\ cnt[t] < Per /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ sz' = [sz EXCEPT ![t] = n]
             /\ Go(t, "look") /\ UNCHANGED <<avail, dealloc, own, hdr, at, seen>>
Look(t) == /\ pc[t] = "look" /\ Go(t, IF avail >= sz[t] THEN "take" ELSE "idle")
           /\ UNCHANGED <<avail, dealloc, own, hdr, at, sz, seen, cnt>>
Take(t) == /\ pc[t] = "take"
           /\ IF avail >= sz[t]
              THEN /\ avail' = avail - sz[t] /\ at' = [at EXCEPT ![t] = avail - sz[t]] /\ Go(t, "use")
              ELSE IF Bug = "under" THEN avail' = avail - sz[t] /\ Go(t, "idle") /\ UNCHANGED at
              ELSE UNCHANGED avail /\ Go(t, "idle") /\ UNCHANGED at
           /\ UNCHANGED <<dealloc, own, hdr, sz, seen, cnt>>
Use(t) == /\ pc[t] = "use" /\ own' = [b \in B |-> IF b \in Range(t) THEN t ELSE own[b]] /\ hdr' = [hdr EXCEPT ![at[t]] = t]
          /\ Go(t, "used") /\ UNCHANGED <<avail, dealloc, at, sz, seen, cnt>>
Free(t) == /\ pc[t] = "used" /\ own' = [b \in B |-> IF b \in Range(t) /\ own[b] = t THEN 0 ELSE own[b]]
           /\ IF Bug = "late" THEN Go(t, "count") /\ UNCHANGED hdr
              ELSE Go(t, "count") /\ hdr' = [hdr EXCEPT ![at[t]] = 0]
           /\ UNCHANGED <<avail, dealloc, at, sz, seen, cnt>>
Count(t) == /\ pc[t] = "count"
            /\ IF Bug = "two" THEN dealloc' = dealloc + sz[t] /\ seen' = [seen EXCEPT ![t] = dealloc + sz[t]] /\ Go(t, "cmp") /\ UNCHANGED avail
               ELSE /\ IF dealloc + sz[t] = Size - avail THEN avail' = Size /\ dealloc' = 0 ELSE dealloc' = dealloc + sz[t] /\ UNCHANGED avail
                    /\ Go(t, IF Bug = "late" THEN "clear" ELSE "idle") /\ UNCHANGED seen
            /\ UNCHANGED <<own, hdr, at, sz, cnt>>
\* "two": load of avail and compare; the exchange only checks avail
Cmp(t) == /\ pc[t] = "cmp" /\ IF seen[t] = Size - avail THEN Go(t, "xchg") /\ at' = [at EXCEPT ![t] = avail] ELSE Go(t, "idle") /\ UNCHANGED at
          /\ UNCHANGED <<avail, dealloc, own, hdr, sz, seen, cnt>>
Xchg(t) == /\ pc[t] = "xchg" /\ IF avail = at[t] THEN avail' = Size /\ Go(t, "sub") ELSE UNCHANGED avail /\ Go(t, "idle")
           /\ UNCHANGED <<dealloc, own, hdr, at, sz, seen, cnt>>
Sub(t) == pc[t] = "sub" /\ dealloc' = dealloc - seen[t] /\ Go(t, "idle") /\ UNCHANGED <<avail, own, hdr, at, sz, seen, cnt>>
Clear(t) == pc[t] = "clear" /\ hdr' = [hdr EXCEPT ![at[t]] = 0] /\ Go(t, "idle") /\ UNCHANGED <<avail, dealloc, own, at, sz, seen, cnt>>
Next == \E t \in Threads : (\E n \in 1..2 : Ask(t, n)) \/ Look(t) \/ Take(t) \/ Use(t) \/ Free(t) \/ Count(t) \/ Cmp(t) \/ Xchg(t) \/ Sub(t) \/ Clear(t)
Spec == Init /\ [][Next]_vars
Mine == \A t \in Threads : pc[t] = "used" => hdr[at[t]] = t /\ \A b \in Range(t) : own[b] = t
Anew == (\A t \in Threads : pc[t] = "idle") => avail = Size /\ dealloc = 0
=============================================================================
