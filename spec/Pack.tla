--------------------------------- MODULE Pack ---------------------------------
(* The packed form of values.  Numbers are byte strings of eight bytes (in        *)
(* network order, sign or zero extended).  Dec is the documented form of numbers: *)
(* a byte on its own, or a code of the family followed by one, two, four or       *)
(* eight bytes.                                                                    *)
EXTENDS Integers, Sequences
VARIABLES vals,    \* packed: [t |-> kind, v |-> value, end |-> bytes so far]
          cut,     \* how many bytes the receiver has
          nxt,     \* values unpacked so far
          st       \* "ok", "err": an error was reported, "lost": anything may follow
pvars == <<vals, cut, nxt, st>>
Signed == {"i8", "i16", "i32", "i64"}
Unsigned == {"u8", "u16", "u32", "u64"}
Width(t) == CASE t \in {"i8", "u8"} -> 1 [] t \in {"i16", "u16"} -> 2 [] t \in {"i32", "u32"} -> 4 [] OTHER -> 8
\* codes: width -> code
Code(t) == IF t \in Signed THEN [w \in {1, 2, 4, 8} |-> CASE w = 1 -> 1 [] w = 2 -> 3 [] w = 4 -> 5 [] w = 8 -> 7]
           ELSE [w \in {1, 2, 4, 8} |-> CASE w = 1 -> 2 [] w = 2 -> 4 [] w = 4 -> 6 [] w = 8 -> 8]
Rep(b, n) == [i \in 1..n |-> b]
Ext(t, b) == IF t \in Signed /\ b[1] >= 128 THEN Rep(255, 8 - Len(b)) \o b ELSE Rep(0, 8 - Len(b)) \o b
\* <<value, bytes taken>> of a number of kind t at the front of b
Dec(t, b) ==
  LET W == {w \in {1, 2, 4, 8} : w <= Width(t) /\ b[1] = Code(t)[w]} IN
  IF W = {} THEN <<Ext(t, <<b[1]>>), 1>>
  ELSE LET w == CHOOSE x \in W : TRUE IN
       IF Len(b) < 1 + w THEN <<<<>>, 0>> ELSE <<Ext(t, SubSeq(b, 2, 1 + w)), 1 + w>>
Numbers == Signed \cup Unsigned
PInit == vals = <<>> /\ cut = 0 /\ nxt = 0 /\ st = "ok"
PPack(t, v, end, b) ==
  /\ end > (IF vals = <<>> THEN 0 ELSE vals[Len(vals)].end)
  /\ t \in Numbers => Dec(t, b) = <<v, Len(b)>>
  /\ vals' = Append(vals, [t |-> t, v |-> v, end |-> end]) /\ cut' = end
  /\ UNCHANGED <<nxt, st>>
PCut(n) == n <= cut /\ cut' = n /\ UNCHANGED <<vals, nxt, st>>
PBytes(n) == cut' = n /\ st' = "lost" /\ UNCHANGED <<vals, nxt>>
PUnpack(t, v, err) ==
  /\ CASE st = "err" -> err /\ UNCHANGED <<nxt, st>>
       [] st = "lost" -> st' = (IF err THEN "err" ELSE st) /\ UNCHANGED nxt
       [] st = "ok" /\ nxt = Len(vals) -> err /\ st' = "err" /\ UNCHANGED nxt
       [] st = "ok" /\ nxt < Len(vals) /\ vals[nxt + 1].t # t -> st' = (IF err THEN "err" ELSE "lost") /\ UNCHANGED nxt
       [] OTHER -> LET x == vals[nxt + 1] IN
            IF x.end <= cut THEN ~err /\ v = x.v /\ nxt' = nxt + 1 /\ UNCHANGED st
            ELSE err /\ st' = "err" /\ UNCHANGED nxt
  /\ UNCHANGED <<vals, cut>>
=============================================================================
