--------------------------------- MODULE Vars --------------------------------
(* Script variables: each holds a value of one kind; assignment copies it,   *)
(* arithmetic turns the target into a floating value, stepping into an       *)
(* integer; comparison is by value between equal kinds.                      *)
(* A number is m / 2^d with m odd or d = 0.                                  *)
EXTENDS Text
CONSTANT Slots
VARIABLE v
\* ---- numbers
RECURSIVE Norm(_)
Norm(x) == IF x.d > 0 /\ x.m % 2 = 0 THEN Norm([m |-> x.m \div 2, d |-> x.d - 1]) ELSE x
Nr(m, d) == Norm([m |-> m, d |-> d])
Whole(m) == Nr(m, 0)
Up(x, d) == x.m * 2^(d - x.d)                    \* the numerator over 2^d
Max(a, b) == IF a >= b THEN a ELSE b
Top(x, y) == Max(x.d, y.d)
Plus(x, y)  == Nr(Up(x, Top(x, y)) + Up(y, Top(x, y)), Top(x, y))
Minus(x, y) == Nr(Up(x, Top(x, y)) - Up(y, Top(x, y)), Top(x, y))
Times(x, y) == Nr(x.m * y.m, x.d + y.d)
RECURSIVE Log(_)
Log(n) == IF n = 1 THEN 0 ELSE 1 + Log(n \div 2)
Abs(n) == IF n < 0 THEN -n ELSE n
Over(x, y)  ==                                   \* y is a power of two, or its negative
  LET s == IF y.m < 0 THEN -x.m ELSE x.m e == Log(Abs(y.m)) IN Nr(s * 2^y.d, x.d + e)
Less(x, y) == Up(x, Top(x, y)) < Up(y, Top(x, y))
Trunc(x) == IF x.m >= 0 THEN x.m \div 2^x.d ELSE -((-x.m) \div 2^x.d)
\* ---- the number in a text: three decimals that are eighths
Eighths(s) == LET g == Signed(SkipBlank(s)) w == Digits(g[2]) r == From(g[2], Len(w) + 1)
                  f == IF r # <<>> /\ Head(r) = 46 THEN Digits(Tail(r)) ELSE <<>>
                  three == Cut(f \o <<48, 48, 48>>, 3)
              IN g[1] * (Num(w, 0) * 8 + (Num(three, 0) * 8) \div 1000)
AsNumber(x) == IF x.k = "str" THEN Nr(Eighths(x.s), 3) ELSE x.v
AsInt(x)    == IF x.k = "str" THEN Integer(x.s) ELSE Trunc(x.v)
\* ---- order of texts
RECURSIVE Before2(_, _)
Before2(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Before2(Tail(a), Tail(b))
Same(x, y) == x = y
Lower(x, y) == IF x.k = "str" THEN Before2(x.s, y.s) ELSE Less(x.v, y.v)
\* ---- steps
Ops == {"+", "-", "*", "/"}
Apply(o, x, y) == CASE o = "+" -> Plus(x, y) [] o = "-" -> Minus(x, y) [] o = "*" -> Times(x, y) [] o = "/" -> Over(x, y)
Kinds == {"bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "str"}
VInit == v = [s \in 1..Slots |-> [k |-> "bool", v |-> Whole(0)]]
VSet(a, x)      == v' = [v EXCEPT ![a] = x]
VCopy(a, b)     == VSet(a, v[b])
VOp(o, a, y)    == VSet(a, [k |-> "f64", v |-> Apply(o, AsNumber(v[a]), y)])
VStep(a, n)     == VSet(a, [k |-> "i64", v |-> Whole(AsInt(v[a]) + n)])
Get(a, k)       == IF v[a].k = k THEN v[a] ELSE [k |-> "throw"]
\* what a comparison may answer: <<equal, less, greater>>
Compared(x, y)  == IF x.k = y.k THEN {<<Same(x, y), Lower(x, y), Lower(y, x)>>}
                   ELSE {<<FALSE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE>>}
=============================================================================
