------------------------------ MODULE MCLaws6 -------------------------------
(* The laws hold of the specified evaluation, for every law and all operands *)
(* from a set of values of every type and spelling.                          *)
EXTENDS Laws6
VARIABLES law, vals

N(t) == LET b == Txt(t) IN [t |-> "num", neg |-> b[1] = 45, d |-> NumLit(b).d, e |-> NumLit(b).e]
S(t) == [t |-> "str", v |-> Txt(t)]
Domain == {N("0"), N("1"), N("-2"), N("0.5"), N("2147483648"), S(""), S("a"), S("A%"), S("b"),
           S("2020-01-02"), S("2020-01-02T02:00:00+02:00"), S("2020-01-01T19:00:00-05:00"), S("2020-01-02T00:00:00.5Z"),
           S("2020-13-02"), [t |-> "time", v |-> <<18263, 0, 0>>], [t |-> "time", v |-> <<18262, 86399, 999999999>>],
           [t |-> "bool", v |-> TRUE], [t |-> "bool", v |-> FALSE]}
Id(s) == [k |-> "ident", v |-> Txt(s)]
P == <<Id("x"), Id("y"), Id("z"), Id("x")>>
Arity(n) == IF n \in {"not-not", "in0", "negate", "not-null", "and-same", "or-same"} THEN 1
            ELSE IF n \in {"notin", "in2", "in3", "in-order", "between", "notbetween", "and-assoc", "or-assoc", "and-or", "or-and"} THEN 3 ELSE 2
Some == CHOOSE v \in Domain : TRUE
Init == \E i \in 1..Len(LawNames) :
          /\ law = LawNames[i]
          /\ \E x \in Domain : \E y \in (IF Arity(law) > 1 THEN Domain ELSE {Some}) :
               \E z \in (IF Arity(law) > 2 THEN Domain ELSE {Some}) : vals = <<x, y, z>>
Next == UNCHANGED <<law, vals>>
Rec == <<[n |-> Txt("x"), v |-> vals[1]], [n |-> Txt("y"), v |-> vals[2]], [n |-> Txt("z"), v |-> vals[3]]>>
Same(a, b) == IF a.t # b.t THEN FALSE
              ELSE CASE a.t = "num" -> a.neg = b.neg /\ a.d = b.d /\ a.e = b.e
                     [] a.t \in {"bool", "str", "time"} -> a.v = b.v
                     [] OTHER -> TRUE
Holds == LET l == Law(law, P)
             a == Eval(l[1], Rec)
             b == Eval(l[2], Rec)
         IN \/ a.t \in {"err", "?"}
            \/ b.t \in {"err", "?"}
            \/ Same(a, b)
=============================================================================
