--------------------------------- MODULE Ini ---------------------------------
(* A configuration file as an Ini object shows it.                           *)
(* A line runs to the line feed; what follows a ';' is a note, blanks at the *)
(* end do not count.  '[name]' begins or continues a section, 'key=value'    *)
(* belongs to the section before it, the first value of a key stays.         *)
EXTENDS Text
VARIABLES open, secs, vals        \* names of the sections, <<section, key, value>>
ivars == <<open, secs, vals>>
IInit == open = FALSE /\ secs = {} /\ vals = {}
\* what is left of a line
TrimCR(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Strip(l) == TrimEnd(Before(TrimCR(l), {59}), {32, 9}, 1)
Lines(b) == LET p == Pieces(b, {10}) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Has(v, s, k) == \E t \in v : t[1] = s /\ t[2] = k
\* one line: st = [cur (<<>> or <<section>>), secs, vals]
OneLine(st, raw) ==
  LET l == Strip(raw) IN
  IF l = <<>> THEN st
  ELSE LET e == First(l, {93}, 1) q == First(l, {61}, 1) IN
    IF Head(l) = 91 /\ e # 0
    THEN LET n == SubSeq(l, 2, e - 1) IN [cur |-> <<n>>, secs |-> st.secs \cup {n}, vals |-> st.vals]
    ELSE IF q # 0 /\ st.cur # <<>> /\ ~Has(st.vals, st.cur[1], SubSeq(l, 1, q - 1))
         THEN [st EXCEPT !.vals = @ \cup {<<st.cur[1], SubSeq(l, 1, q - 1), From(l, q + 1)>>}]
         ELSE st
RECURSIVE Fold(_, _)
Fold(st, ls) == IF ls = <<>> THEN st ELSE Fold(OneLine(st, Head(ls)), Tail(ls))
Read(b) == Fold([cur |-> <<>>, secs |-> {}, vals |-> {}], Lines(b))
IOpen(b) == LET r == Read(b) IN open' = TRUE /\ secs' = r.secs /\ vals' = r.vals
IClose   == open' = FALSE /\ secs' = {} /\ vals' = {}
\* the value of a key, d without one
Value(s, k)  == (CHOOSE t \in vals : t[1] = s /\ t[2] = k)[3]
Known(s, k)  == Has(vals, s, k)
GInt(s, k, d)    == IF Known(s, k) THEN Integer(Value(s, k)) ELSE d
GMilli(s, k, d)  == IF Known(s, k) THEN Milli(Value(s, k)) ELSE d
\* a text fits into size characters with the one that ends it
GStr(s, k, size, d) == Cut(IF Known(s, k) THEN Value(s, k) ELSE d, size - 1)
=============================================================================
