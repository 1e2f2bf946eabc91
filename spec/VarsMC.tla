------------------------------- MODULE VarsMC --------------------------------
(* The variables on a small set of values: arithmetic obeys the laws of      *)
(* exact numbers, comparison is an order, steps go there and back.           *)
EXTENDS Vars
CONSTANTS Limit
Texts == {<<>>, <<49>>, <<45, 50>>, <<50, 46, 53>>, <<97>>, <<49, 48>>}
Values == {[k |-> k, v |-> Whole(n)] : k \in {"bool", "i8", "i64"}, n \in {-1, 0, 1, 2}} \cup {[k |-> "f64", v |-> Nr(n, 1)] : n \in {-3, 1, 4}}
          \cup {[k |-> "str", s |-> t] : t \in Texts}
Nums == {Nr(1, 0), Nr(-2, 0), Nr(1, 1), Nr(4, 0)}
Init == VInit
Small == \A s \in 1..Slots : IF v[s].k = "str" THEN TRUE ELSE Abs(v[s].v.m) <= Limit /\ v[s].v.d <= 3
Next == /\ Small
        /\ \/ \E a \in 1..Slots, x \in Values : VSet(a, x)
           \/ \E a, b \in 1..Slots : VCopy(a, b)
           \/ \E a \in 1..Slots, o \in {"+", "-", "*"}, y \in Nums : VOp(o, a, y)
           \/ \E a \in 1..Slots, y \in Nums : VOp("/", a, y)
           \/ \E a \in 1..Slots, n \in {-1, 1} : VStep(a, n)
Cardinality1(c) == (IF c[1] THEN 1 ELSE 0) + (IF c[2] THEN 1 ELSE 0) + (IF c[3] THEN 1 ELSE 0)
Normal(x) == x.d = 0 \/ x.m % 2 # 0
All == {v[s] : s \in 1..Slots}
Typed == \A x \in All : x.k \in Kinds /\ (x.k # "str" => Normal(x.v))
\* exactly one of equal, less and greater, and the answers of two variables agree
Order == \A x, y \in All :
  /\ x.k = y.k => \A c \in Compared(x, y) : Cardinality1(c) = 1
  /\ x.k = y.k => \A c \in Compared(x, y) : <<c[1], c[3], c[2]>> \in Compared(y, x)
  /\ x.k = y.k => \A z \in All : z.k = x.k /\ Lower(x, y) /\ Lower(y, z) => Lower(x, z)
Exact == \A x \in All, y \in Nums : x.k # "str" =>
  /\ Minus(Plus(x.v, y), y) = x.v
  /\ Times(Over(x.v, y), y) = x.v
  /\ Plus(x.v, y) = Plus(y, x.v)
  /\ Less(x.v, y) = Less(Minus(x.v, y), Whole(0))
Stepped == [][\A a \in 1..Slots, n \in {-1, 1} : v'[a].k = "i64" /\ v' = [v EXCEPT ![a] = [k |-> "i64", v |-> Whole(AsInt(v[a]) + n)]]
              => AsInt(v'[a]) - n = AsInt(v[a])]_v
Inv == Typed /\ Order /\ Exact
=============================================================================
