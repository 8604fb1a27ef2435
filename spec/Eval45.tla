------------------------------- MODULE Eval45 -------------------------------
(* What a filter of v4 or v5 means on a record: [t |-> "bool", v], an error  *)
(* or Vague (not decided).  Values as in Eval6, but texts are texts, dates   *)
(* are dates, and a list of texts is [t |-> "strs", e].                      *)
EXTENDS Lang45, Eval6

Text45(s) == [t |-> "str", v |-> s]
\* what a version makes of the value of a field
Go45(V, v) ==
  CASE v.t = "num" -> IF "mk" \in DOMAIN v /\ v.mk.go \in {"int8", "int16", "uint8", "uint16"} THEN Vague ELSE Number(v.neg, [d |-> v.d, e |-> v.e])
    [] v.t = "str" -> Text45(v.v)
    [] v.t = "bool" -> IF V = 5 THEN Bool(v.v) ELSE Text45(Txt(IF v.v THEN "true" ELSE "false"))
    [] v.t = "null" -> NullV
    [] v.t = "time" -> IF V = 5 THEN [t |-> "time", v |-> v.v] ELSE Err
    [] v.t = "strs" -> IF V = 5 THEN [t |-> "strs", e |-> v.e] ELSE Err
    [] v.t = "nf" -> Vague
    [] v.t = "other" -> IF "go" \in DOMAIN v THEN Vague ELSE IF v.is \in {"[]string", "time.Duration", "time.Month", "json.Number"} THEN Vague ELSE Err
    [] OTHER -> Err
Field45(V, rec, name) == LET v == Lookup(rec, name, 1) IN IF v = Err THEN NullV ELSE Go45(V, v)

Lit45(n) ==
  CASE n.k = "num" -> LET x == Mag45(n.v) IN IF x.e < 300 /\ x.e > -300 THEN Number(n.v[1] = 45, x) ELSE Vague
    [] n.k = "str" -> Text45(n.v)
    [] n.k = "bool" -> Bool(n.v)
    [] n.k = "date" -> [t |-> "time", v |-> ParseShort(n.v).t]
    [] n.k = "ts" -> [t |-> "time", v |-> ParseLong(n.v).t]

\* the remainder x - y * trunc(x / y), which is exact
Rest(x, y) ==
  IF Zero(y) \/ ~Exact(x) \/ ~Exact(y) THEN Vague
  ELSE LET k == Larger(Places(x), Places(y))
           a == Shift(Mag(x), k)
           b == Shift(Mag(y), k)
       IN IF a.e > 15 \/ b.e > 15 THEN Vague ELSE Number(x.neg, Shift(LongMod(a, b), -k))
Math45Of(op, a, b) ==
  IF a.t = "err" \/ b.t = "err" THEN Err
  ELSE IF a.t = "null" \/ b.t = "null" THEN (IF {a.t, b.t} \subseteq {"null", "num", "quo"} THEN NullV ELSE Vague)
  ELSE IF a.t \notin {"num", "quo", "?"} \/ b.t \notin {"num", "quo", "?"} THEN (IF a.t = "?" \/ b.t = "?" THEN Vague ELSE Err)
  ELSE IF a.t # "num" \/ b.t # "num" THEN Vague
  ELSE CASE op = "ADD" -> Add(a, b)
         [] op = "SUB" -> Sub(a, b)
         [] op = "MUL" -> Mul(a, b)
         [] op = "DIV" -> IF Zero(b) THEN Vague ELSE Div(a, b)
         [] op = "MOD" -> Rest(a, b)
RECURSIVE Operand45(_, _, _)
Operand45(V, n, rec) ==
  CASE n.k = "ident" -> Field45(V, rec, n.v)
    [] n.k = "bin" -> IF V = 4 THEN Err ELSE Math45Of(n.op, Operand45(V, n.l, rec), Operand45(V, n.r, rec))
    [] OTHER -> Lit45(n)

\* a quotient that is no double against a short number
Few(x) == Len(x.d) <= 4 /\ x.e <= 4 /\ Places(x) <= 3
QuoOrder(q, x) == LET m == DecMul(Mag(x), q.by)
                  IN IF q.neg # x.neg \/ Zero(x) THEN (IF q.neg THEN "lt" ELSE "gt")
                     ELSE IF DecLess(Mag(q), m) = q.neg THEN "gt" ELSE "lt"
Flip(o) == CASE o = "lt" -> "gt" [] o = "gt" -> "lt" [] OTHER -> o
Order45(a, b) == IF a.t = "num" /\ b.t = "num" THEN Order(a, b)
                 ELSE IF a.t = "quo" /\ b.t = "num" /\ Few(b) /\ a.e <= 5 /\ a.by < 100000 THEN QuoOrder(a, b)
                 ELSE IF a.t = "num" /\ b.t = "quo" /\ Few(a) /\ b.e <= 5 /\ b.by < 100000 THEN Flip(QuoOrder(b, a))
                 ELSE "?"
Ordered(op, o) == IF o = "?" THEN Vague
                  ELSE Bool(CASE op = "EQ" -> o = "eq" [] op = "NE" -> o # "eq" [] op = "LT" -> o = "lt" [] op = "LE" -> o # "gt"
                              [] op = "GT" -> o = "gt" [] op = "GE" -> o # "lt")
Side(lt, gt) == IF lt THEN "lt" ELSE IF gt THEN "gt" ELSE "eq"
CmpOps45 == {"EQ", "NE", "LT", "LE", "GT", "GE"}

\* texts that stand for a boolean
Yes == {Txt("t"), Txt("T"), Txt("true"), Txt("True"), Txt("TRUE")}
Nay == {Txt("f"), Txt("F"), Txt("false"), Txt("False"), Txt("FALSE")}
AsBool(v) == CASE v.t = "bool" -> v
               [] v.t \in {"num", "quo"} -> Bool(~Zero(v))
               [] v.t = "str" -> IF v.v \in Yes THEN Bool(TRUE) ELSE IF v.v \in Nay THEN Bool(FALSE) ELSE Vague

Compare45(op, a, b) ==
  IF a.t = "err" \/ b.t = "err" THEN Err
  ELSE IF a.t = "?" \/ b.t = "?" THEN Vague
  ELSE IF b.t = "null" THEN Bool(FALSE)
  ELSE IF a.t = "null" THEN (IF b.t = "strs" THEN Vague ELSE Bool(FALSE))
  ELSE IF a.t = "str" /\ b.t = "str"
    THEN IF op \in CmpOps45 THEN Ordered(op, Side(TextLess(a.v, b.v), TextLess(b.v, a.v)))
         ELSE IF op \in {"LIKE", "ILIKE"} THEN LikeV(op, a, b)
         ELSE IF op = "REQ" THEN RegV(a, b)
         ELSE LET r == RegV(a, b) IN NotV(r)
  ELSE IF {a.t, b.t} \subseteq {"num", "quo"} THEN (IF op \in CmpOps45 THEN Ordered(op, Order45(a, b)) ELSE Err)
  ELSE IF a.t = "time" /\ b.t = "time" THEN (IF op \in CmpOps45 THEN Ordered(op, Side(TimeLess(a.v, b.v), TimeLess(b.v, a.v))) ELSE Err)
  ELSE IF a.t = "bool" /\ b.t \in {"bool", "num", "quo", "str"} /\ op \in {"EQ", "NE"}
    THEN LET x == AsBool(b) IN IF x.t = "?" THEN Vague ELSE Bool((a.v = x.v) = (op = "EQ"))
  ELSE Err

\* a against a list of literals
Some(R) == IF Vague \in R THEN Vague ELSE Bool(Bool(TRUE) \in R)
List45Of(op, a, L) ==
  IF a.t = "err" THEN Err
  ELSE IF a.t = "?" THEN Vague
  ELSE IF a.t = "null" THEN Bool(FALSE)
  ELSE IF a.t = "strs"
    THEN IF op \notin {"IN", "NOT IN"} \/ \E i \in 1..Len(L) : L[i].t # "str" THEN Err
         ELSE Bool((\E i \in 1..Len(L), j \in 1..Len(a.e) : L[i].v = a.e[j]) = (op = "IN"))
  ELSE IF a.t \notin {"str", "num", "quo", "time"} THEN Err
  ELSE IF \E i \in 1..Len(L) : L[i].t # "?" /\ L[i].t # (IF a.t = "quo" THEN "num" ELSE a.t) THEN Err
  ELSE IF \E i \in 1..Len(L) : L[i].t = "?" THEN Vague
  ELSE LET in == Some({Compare45("EQ", a, L[i]) : i \in 1..Len(L)})
           low == Compare45("GE", a, L[1])
           high == Compare45("LE", a, L[2])
           within == IF Vague \in {low, high} THEN Vague ELSE AndV(low, high)
       IN CASE op = "IN" -> in
            [] op = "NOT IN" -> NotV(in)
            [] op = "BETWEEN" -> within
            [] op = "NOT BETWEEN" -> NotV(within)

RECURSIVE Eval45(_, _, _)
Eval45(V, n, rec) ==
  IF n.k = "un" THEN
    IF n.op = "NOT" THEN LET r == Eval45(V, n.r, rec) IN NotV(r)
    ELSE LET v == Operand45(V, n.r, rec)
         IN IF v.t \in {"err", "?"} THEN v ELSE Bool((v.t = "null") = (n.op = "IS NULL"))
  ELSE IF n.op \in {"AND", "OR"} THEN
    LET a == Eval45(V, n.l, rec)
        b == Eval45(V, n.r, rec)
    IN IF a.t = "err" \/ b.t = "err" THEN (IF a.t = "?" \/ b.t = "?" THEN Vague ELSE Err)
       ELSE IF a.t = "?" \/ b.t = "?" THEN Vague
       ELSE Bool(IF n.op = "AND" THEN a.v /\ b.v ELSE a.v \/ b.v)
  ELSE LET a == Operand45(V, n.l, rec) IN
    IF n.r.k = "arr" THEN List45Of(n.op, a, [i \in 1..Len(n.r.e) |-> Lit45(n.r.e[i])])
    ELSE Compare45(n.op, a, Operand45(V, n.r, rec))
=============================================================================
