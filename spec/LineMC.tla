-------------------------------- MODULE LineMC --------------------------------
(* Packets without line ends in their data, in line form and arriving in any      *)
(* portions, are decoded one by one, each as it was sent.                         *)
EXTENDS Line
CONSTANTS MAXP, MAXLEN
VARIABLES sent, got
mvars == <<lvars, sent, got>>
Msgs == {<<"", <<>>>>, <<"", <<65>>>>, <<"", <<13, 66>>>>, <<"nt", <<7>>>>, <<"nt", <<13, 110, 99>>>>,
         <<"rq", <<1, 2, 3, 4, 5>>>>, <<"rs", <<1, 2, 3, 4, 5, 6, 7, 8, 13>>>>}
Init == LInit /\ sent = <<>> /\ got = <<>>
Send == /\ Len(sent) < MAXP
        /\ \E m \in Msgs : LEncode(m[1], m[2], Encoded(m[1], m[2])) /\ sent' = Append(sent, m) /\ got' = got
Arrive == \E n \in 1..Len(wire) : LFeed(n) /\ UNCHANGED <<sent, got>>
Take == LET d == Decoded(buf, MAXLEN) IN
        /\ d[1] = "ok"
        /\ LDecode(MAXLEN, "ok", Len(buf) - d[2], d[3], d[4])
        /\ got' = Append(got, <<d[3], d[4]>>) /\ sent' = sent
Next == Send \/ Arrive \/ Take
Spec == Init /\ [][Next]_mvars
InOrder == Len(got) <= Len(sent) /\ got = SubSeq(sent, 1, Len(got))
NeverBad == Decoded(buf, MAXLEN)[1] # "err"
AllTaken == (wire = <<>> /\ Decoded(buf, MAXLEN)[1] = "need") => (buf = <<>> /\ got = sent)
=============================================================================
