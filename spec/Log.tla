--------------------------------- MODULE Log ---------------------------------
(* A log shared by writers: records take effect one after another between the   *)
(* call and the return of the writer; the files hold a growing prefix of them,  *)
(* and all that was there when the logger was asked to stop once it has.        *)
EXTENDS Integers, Sequences
VARIABLES buf,     \* records in the order they took effect
          disk,    \* how many of them are known to be in the files
          pend,    \* writer -> [k, ph]: record under way
          stop,    \* "no", "asked", "done"
          mark     \* how many had taken effect when the stop was asked for
lvars == <<buf, disk, pend, stop, mark>>
CONSTANT Writers
LIdle == [k |-> 0, ph |-> "idle"]
LInit == buf = <<>> /\ disk = 0 /\ pend = [w \in Writers |-> LIdle] /\ stop = "no" /\ mark = 0
\* on = FALSE: a record of a level that is turned off
LCall(w, k, on) == /\ pend[w].ph = "idle"
                   /\ pend' = [pend EXCEPT ![w] = [k |-> k, ph |-> IF on THEN "called" ELSE "in"]]
                   /\ UNCHANGED <<buf, disk, stop, mark>>
LLin(w) == /\ pend[w].ph = "called" /\ pend' = [pend EXCEPT ![w].ph = "in"]
           /\ buf' = Append(buf, pend[w].k) /\ UNCHANGED <<disk, stop, mark>>
LRet(w, k) == /\ pend[w].ph = "in" /\ pend[w].k = k /\ pend' = [pend EXCEPT ![w] = LIdle]
              /\ UNCHANGED <<buf, disk, stop, mark>>
LStop == stop = "no" /\ stop' = "asked" /\ mark' = Len(buf) /\ UNCHANGED <<buf, disk, pend>>
LStopped == stop = "asked" /\ stop' = "done" /\ UNCHANGED <<buf, disk, pend, mark>>
IsPrefix(v) == Len(v) <= Len(buf) /\ v = SubSeq(buf, 1, Len(v))
\* what the files hold: everything, if the writers are at rest and the flush interval has passed or the logger was stopped
LRead(v, all) == /\ IsPrefix(v) /\ Len(v) >= disk
                 /\ all /\ stop = "no" => Len(v) = Len(buf) /\ \A w \in Writers : pend[w].ph = "idle"
                 /\ stop = "done" => Len(v) >= mark
                 /\ disk' = Len(v) /\ UNCHANGED <<buf, pend, stop, mark>>
=============================================================================
