------------------------------ MODULE CodesTrace ------------------------------
EXTENDS TraceBase, Codes
TInit == TBInit
Y(x) == x = "yes"
Step ==
  \/ Ev.e = "encode" /\ Ev.r = Encode(Ev.s)
  \/ Ev.e = "decode" /\ Ev.r = Decode(Ev.s)
  \/ Ev.e = "char" /\ Ev.c = Letter(Ev.n)
  \/ Ev.e = "hex" /\ Y(Ev.ok) = (Ev.s # <<>>) /\ Ev.r = Hex(Ev.s)
  \/ Ev.e = "unhex" /\ (Ev.s # <<>> => Y(Ev.ok)) /\ Ev.r = Unhex(Ev.s, Ev.lim)
  \/ Ev.e = "md5" /\ Ev.r = Md5(Ev.s)
  \/ /\ Ev.e = "password"
     /\ Y(Ev.ok) => Password(Ev.s) /\ Y(Ev.back) /\ Ev.r = Ev.s /\ Ev.len = 32 /\ ~Y(Ev.plain)
     /\ Password(Ev.s) /\ Len(Ev.s) <= 10 => Y(Ev.ok)       \* a longer one may be refused
  \/ Ev.e = "tagged" /\ Y(Ev.ok) /\ Y(Ev.back) /\ Ev.r = Ev.s /\ Ev.w = Ev.v
  \/ Ev.e = "swap" /\ Ev.r = Reversed(Ev.s) /\ Ev.at = Ev.r /\ Ev.in = Ev.r
  \/ Ev.e = "hostile"
  \/ Ev.e = "end"
TNext == Consume /\ Step
=============================================================================
