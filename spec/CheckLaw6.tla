----------------------------- MODULE CheckLaw6 ------------------------------
(* Two evaluations of the real code on one record: filters e.s and e.arg.s2, *)
(* an instance of the law e.arg.law with the operands e.arg.parts.           *)
EXTENDS Laws6, TraceLoop

RECURSIVE SameRes(_, _)
SameRes(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "num" -> IF "nan" \in DOMAIN a.f \/ "nan" \in DOMAIN b.f THEN "nan" \in DOMAIN a.f /\ "nan" \in DOMAIN b.f
                           ELSE a.f.lo = b.f.lo /\ a.f.loe = b.f.loe /\ a.f.unb = b.f.unb /\ (a.f.lo = <<>> \/ a.f.neg = b.f.neg)
         [] a.t \in {"bool", "str", "time"} -> a.v = b.v
         [] a.t = "arr" -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : SameRes(a.e[i], b.e[i])
         [] OTHER -> TRUE
\* laws of operands equal to themselves and ordered, as what is not a number is not
Ordered == {"in0", "not-lt", "not-gt", "not-eq", "notbetween"}
Unordered(e) == \E i \in DOMAIN e.arg.rec : e.arg.rec[i].v.mk.go \in {"nan", "nan32", "inf", "-inf"}
JudgeLaw(e) ==
  IF e.r1.out = "panic" \/ e.r2.out = "panic" THEN "outcome panic"
  ELSE IF e.r1.out = "noparse" \/ e.r2.out = "noparse" THEN "a filter is rejected"
  ELSE LET ps == [i \in 1..4 |-> IF i <= Len(e.arg.parts) THEN Parse(e.arg.parts[i]).n ELSE Null]
           two == Law(e.arg.law, ps)
       IN IF Parse(e.s).n # two[1] \/ Parse(e.arg.s2).n # two[2] THEN "not an instance of the law"
          ELSE IF e.r1.out = "err" \/ e.r2.out = "err" THEN "skip"
          ELSE IF e.arg.law \in Ordered /\ Unordered(e) THEN "skip"
          ELSE IF SameRes(e.r1.v, e.r2.v) THEN "ok" ELSE "law " \o e.arg.law
=============================================================================
