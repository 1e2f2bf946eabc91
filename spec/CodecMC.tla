-------------------------------- MODULE CodecMC --------------------------------
(* Packets encoded one after another and arriving in any portions are decoded     *)
(* one by one, each exactly as it was sent, whatever the portions.                *)
EXTENDS Codec
CONSTANTS MAXP, MAXID, MAXLEN
VARIABLES sent, got
mvars == <<dvars, sent, got>>
Init == DInit /\ sent = <<>> /\ got = <<>>
Send == /\ Len(sent) < MAXP
        /\ \E id \in {1, 250, 65533, 65534}, n \in 0..MAXLEN, f \in {0, 250} :
             /\ DEncode(id, f, n, Encoded(id, f, n))
             /\ sent' = Append(sent, <<id, Run(f, n)>>) /\ got' = got
Arrive == \E n \in 1..RLen(wire) : DFeed(n) /\ UNCHANGED <<sent, got>>
Take == LET d == Decoded(buf, MAXID, MAXLEN) IN
        /\ d[1] = "ok"
        /\ DDecode(MAXID, MAXLEN, "ok", RLen(buf) - 6 - RLen(d[3]), d[2], d[3], Kind(d[2]))
        /\ got' = Append(got, <<d[2], d[3]>>) /\ sent' = sent
Next == Send \/ Arrive \/ Take
Spec == Init /\ [][Next]_mvars
InOrder == Len(got) <= Len(sent) /\ got = SubSeq(sent, 1, Len(got))
\* never refused, and nothing is left over once all has arrived and been taken
NeverBad == Decoded(buf, MAXID, MAXLEN)[1] # "bad"
AllTaken == (wire = <<>> /\ Decoded(buf, MAXID, MAXLEN)[1] \in {"need", "fill"}) => (buf = <<>> /\ got = sent)
=============================================================================
