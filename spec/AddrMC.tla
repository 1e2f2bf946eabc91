------------------------------- MODULE AddrMC --------------------------------
(* Address texts: every text up to Max characters of a small alphabet, and   *)
(* the texts an address is shown as, which read back as the same address.    *)
EXTENDS Addr, FiniteSets, TLC
CONSTANTS Chars, Max, Octets, Ports
VARIABLES kind, t, a
vars == <<kind, t, a>>
RECURSIVE Dig(_), Hexed(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Dig(n \div 10) \o <<48 + (n % 10)>>
HexC(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Hexed(n) == IF n < 16 THEN <<HexC(n)>> ELSE Hexed(n \div 16) \o <<HexC(n % 16)>>
Shown4(b) == Dig(b[1]) \o <<Dot>> \o Dig(b[2]) \o <<Dot>> \o Dig(b[3]) \o <<Dot>> \o Dig(b[4])
RECURSIVE Groups6(_)
Groups6(b) == LET h == Hexed(b[1] * 256 + b[2]) IN IF Len(b) = 2 THEN h ELSE h \o <<Colon>> \o Groups6(From(b, 3))
Text4(x) == Shown4(x.b) \o <<Colon>> \o Dig(x.port)
Text6(x) == <<91>> \o Groups6(x.b) \o <<93, Colon>> \o Dig(x.port)
Addr4 == [ok : {TRUE}, four : {TRUE}, b : [1..4 -> Octets], port : Ports]
Addr6 == {[ok |-> TRUE, four |-> FALSE, b |-> [i \in 1..16 |-> IF i \in S THEN o ELSE IF i % 2 = 0 THEN p ELSE 0], port |-> n] :
            S \in {{}, {1}, {2, 16}, {7, 8}}, o \in Octets, p \in Octets, n \in Ports}
Nothing == [ok |-> FALSE]
Init == \/ kind = "text" /\ t \in UNION {[1..k -> Chars] : k \in 0..Max} /\ a = Nothing
        \/ kind = "shown" /\ a \in Addr4 \cup Addr6 /\ t = IF a.four THEN Text4(a) ELSE Text6(a)
Next == UNCHANGED vars
\* a text is read as an address that is one, and taken literally it is the same one unless it is a local spelling
Formed(x) == x.ok => Len(x.b) = (IF x.four THEN 4 ELSE 16) /\ (\A i \in 1..Len(x.b) : x.b[i] \in 0..255) /\ x.port \in 0..65535
Read == kind = "text" => \A lis \in BOOLEAN : Formed(Parse(t, lis)) /\ Formed(Literal(t))
        /\ (Literal(t).ok /\ Split(t)[1] \notin {Local4[i] : i \in 1..3} \cup {Local6[i] : i \in 1..4} => Parse(t, lis) = Literal(t))
Back == kind = "shown" => Literal(t) = a
\* no text names two families
Inv == Read /\ Back
S(x) == x
ASSUME Parse(<<58, 58>>, FALSE).b = Loop6 /\ Parse(<<58, 58>>, TRUE).b = Any6
ASSUME Parse(<<58, 56, 48>>, TRUE) = [ok |-> TRUE, four |-> TRUE, b |-> Any4, port |-> 80]
ASSUME ~Parse(<<49, 46, 50, 46, 51, 46, 52, 58, 54, 53, 53, 51, 54>>, FALSE).ok     \* port 65536
ASSUME Parse(<<49, 46, 50, 46, 51, 46, 52, 58, 54, 53, 53, 51, 53>>, FALSE).port = 65535
ASSUME Host6(<<58, 58, 102, 102, 102, 102, 58, 49, 46, 50, 46, 51, 46, 52>>).b = <<0,0,0,0,0,0,0,0,0,0,255,255,1,2,3,4>>
=============================================================================
