------------------------------- MODULE Eval6 --------------------------------
(* What a v6 filter means on a record.  Values: [t |-> "null"],              *)
(* [t |-> "bool", v], [t |-> "num", ..] (Num), [t |-> "str", v],              *)
(* [t |-> "time", v |-> instant] (with txt, the text it was written as),     *)
(* [t |-> "arr", e], [t |-> "err"], [t |-> "?"] (not decided), "other" (a Go  *)
(* value the language does not know) and "nf" (a number that is not finite).  *)
EXTENDS Integers, Sequences, Gram6, Num, Like, Regex

Err == [t |-> "err"]
Bool(b) == [t |-> "bool", v |-> b]
NullV == [t |-> "null"]
ArrV(e) == [t |-> "arr", e |-> e]

\* a text is the date it reads as, if it does
TextV(s) == IF Lenient(s) THEN Vague
            ELSE LET a == AnyTime(s)
                 IN IF a.ok THEN [t |-> "time", v |-> a.t, txt |-> s] ELSE [t |-> "str", v |-> s]

LitUnit(v) == LET n == Len(v)
                  bin == n > 1 /\ LowC(v[n]) = 105
                  b == IF bin THEN n - 2 ELSE IF IsLetter(v[n]) THEN n - 1 ELSE n
                  u == IF b < n THEN UnitOf(v[b + 1]) ELSE 0
                  x == Magnitude(v, Sign(v, 1), b)
              IN IF u = 0 THEN x
                 ELSE IF bin THEN DecMulN(x, 1024, u)
                 ELSE [d |-> x.d, e |-> IF x.d = <<>> THEN 0 ELSE x.e + 3 * u]
NumLit(v) == LET x == LitUnit(v) IN IF x.e < 300 /\ x.e > -300 THEN Number(v[1] = 45, x) ELSE Vague

\* --- record: sequence of [n |-> name, v |-> value]
RECURSIVE Lookup(_, _, _)
Lookup(rec, name, i) == IF i > Len(rec) THEN Err ELSE IF rec[i].n = name THEN rec[i].v ELSE Lookup(rec, name, i + 1)
RECURSIVE FromGo(_)
FromGo(v) == CASE v.t = "str" -> TextV(v.v)
               [] v.t = "arr" -> ArrV([i \in 1..Len(v.e) |-> FromGo(v.e[i])])
               [] v.t = "num" -> Number(v.neg, [d |-> v.d, e |-> v.e])
               [] v.t = "time" -> [t |-> "time", v |-> v.v]
               [] v.t = "bool" -> Bool(v.v)
               [] OTHER -> [t |-> v.t]

Odd(v) == v.t \in {"?", "other", "quo", "nf"}
IsTrue(v) == v.t = "bool" /\ v.v
IsNum(v) == v.t \in {"num", "quo"}

EqV(a, b) ==
  IF a.t = "quo" \/ b.t = "quo" \/ a.t = "?" \/ b.t = "?" \/ a.t \in {"other", "nf"} \/ b.t \in {"other", "nf"} THEN Vague
  ELSE IF a.t # b.t THEN Bool(FALSE)
  ELSE CASE a.t = "num" -> LET o == Order(a, b) IN IF o = "?" THEN Vague ELSE Bool(o = "eq")
         [] a.t \in {"time", "str", "bool"} -> Bool(a.v = b.v)
         [] a.t = "null" -> Bool(TRUE)
         [] OTHER -> Vague
NotV(v) == IF v.t = "bool" THEN Bool(~v.v) ELSE v

CmpV(op, a, b) ==
  IF Odd(a) \/ Odd(b) THEN Vague
  ELSE IF a.t = "num" /\ b.t = "num"
    THEN LET o == Order(a, b)
         IN IF o = "?" THEN Vague
            ELSE Bool(CASE op = "LT" -> o = "lt" [] op = "LE" -> o # "gt"
                        [] op = "GT" -> o = "gt" [] op = "GE" -> o # "lt")
  ELSE IF a.t = "time" /\ b.t = "time"
    THEN Bool(CASE op = "LT" -> TimeLess(a.v, b.v) [] op = "LE" -> ~TimeLess(b.v, a.v)
                [] op = "GT" -> TimeLess(b.v, a.v) [] op = "GE" -> ~TimeLess(a.v, b.v))
  ELSE Err

AndV(a, b) == IF a.t = "bool" /\ b.t = "bool" THEN Bool(a.v /\ b.v)
              ELSE IF Odd(a) \/ Odd(b) THEN Vague ELSE Err
OrV(a, b) == IF a.t = "bool" /\ b.t = "bool" THEN Bool(a.v \/ b.v)
             ELSE IF Odd(a) \/ Odd(b) THEN Vague ELSE Err

\* membership: equal to some element
InV(a, L) ==
  IF L.t # "arr" THEN (IF Odd(L) THEN Vague ELSE Err)
  ELSE IF Odd(a) THEN Vague
  ELSE IF a.t = "null" THEN (IF \E i \in 1..Len(L.e) : L.e[i].t \in {"null", "?", "other"} THEN Vague ELSE Bool(FALSE))
  ELSE LET r == {EqV(a, L.e[i]) : i \in 1..Len(L.e)}
       IN IF Vague \in r THEN Vague ELSE Bool(Bool(TRUE) \in r)

BetweenV(a, L) ==
  IF L.t # "arr" \/ Len(L.e) # 2 THEN (IF Odd(L) THEN Vague ELSE Err)
  ELSE LET lo == CmpV("GE", a, L.e[1])
           hi == CmpV("LE", a, L.e[2])
       IN IF lo = Err \/ hi = Err THEN Err
          ELSE IF Odd(lo) \/ Odd(hi) THEN Vague ELSE AndV(lo, hi)

\* --- patterns
BadUtf(s) == \E i \in 1..Len(s) : s[i] = 65533
LikeV(op, a, p) ==
  IF a.t \notin {"str", "time", "other"} \/ p.t \notin {"str", "time", "?", "other"} THEN Err
  ELSE IF a.t # "str" \/ p.t # "str" THEN
    (IF (a.t = "time" /\ "txt" \notin DOMAIN a) \/ (p.t = "time" /\ "txt" \notin DOMAIN p) THEN Err ELSE Vague)
  ELSE LET x == Chars(a.v)
           y == Chars(p.v)
       IN IF BadUtf(x) \/ BadUtf(y) THEN Vague
          ELSE IF op = "LIKE" THEN Bool(LikeChars(x, y))
          ELSE IF FoldsKnown(x) /\ FoldsKnown(y) THEN Bool(LikeChars(FoldAll(x), FoldAll(y))) ELSE Vague
RegV(a, p) ==
  IF a.t \notin {"str", "time", "other"} \/ p.t \notin {"str", "time", "?", "other"} THEN Err
  ELSE IF a.t # "str" \/ p.t # "str" THEN
    (IF (a.t = "time" /\ "txt" \notin DOMAIN a) \/ (p.t = "time" /\ "txt" \notin DOMAIN p) THEN Err ELSE Vague)
  ELSE LET x == Chars(a.v)
           y == Chars(p.v)
       IN IF BadUtf(x) \/ BadUtf(y) THEN Vague
          ELSE LET r == RParse(y)
               IN CASE r.st = "odd" -> Vague
                    [] r.st = "bad" -> Err
                    [] OTHER -> Bool(Search(r.n, x))

MathV(op, a, b) ==
  IF ~IsNum(a) /\ ~Odd(a) THEN Err
  ELSE IF ~IsNum(b) /\ ~Odd(b) THEN Err
  ELSE IF op = "DIV" /\ b.t = "num" /\ Zero(b) THEN (IF a.t = "num" THEN Err ELSE Vague)
  ELSE IF Odd(a) \/ Odd(b) THEN Vague
  ELSE CASE op = "ADD" -> Add(a, b)
         [] op = "SUB" -> Sub(a, b)
         [] op = "MUL" -> Mul(a, b)
         [] op = "DIV" -> Div(a, b)
         [] op = "MOD" -> LET m == Mod(a, b) IN IF m.t = "zero" THEN Err ELSE m

\* an error among the results, if any, is the result
Gather(e) == IF \E i \in 1..Len(e) : e[i] = Err THEN Err
             ELSE IF \E i \in 1..Len(e) : e[i].t = "?" THEN Vague ELSE ArrV(e)

RECURSIVE BinV(_, _, _)
BinV(op, a, b) ==
  IF a = Err \/ b = Err THEN Err
  ELSE IF a.t = "?" \/ (a.t = "arr" /\ a.e = <<>> /\ b.t = "?") THEN Vague
  ELSE IF a.t = "arr" THEN Gather([i \in 1..Len(a.e) |-> BinV(op, a.e[i], b)])
  ELSE CASE op = "EQ" -> EqV(a, b)
         [] op = "NE" -> NotV(EqV(a, b))
         [] op \in {"LT", "LE", "GT", "GE"} -> CmpV(op, a, b)
         [] op = "REQ" -> RegV(a, b)
         [] op = "RNE" -> NotV(RegV(a, b))
         [] op = "AND" -> AndV(a, b)
         [] op = "OR" -> OrV(a, b)
         [] op \in {"LIKE", "ILIKE"} -> LikeV(op, a, b)
         [] op = "IN" -> InV(a, b)
         [] op = "BETWEEN" -> BetweenV(a, b)
         [] op = "IS" -> IF Odd(a) THEN (IF a.t = "?" THEN Vague ELSE Bool(FALSE)) ELSE Bool(a.t = "null")
         [] op \in {"ADD", "SUB", "MUL", "DIV", "MOD"} -> MathV(op, a, b)

RECURSIVE SumV(_, _, _)
SumV(e, i, acc) == IF i > Len(e) THEN acc
                   ELSE LET s == MathV("ADD", acc, e[i])
                        IN IF s = Err THEN Err ELSE SumV(e, i + 1, s)
OneV(op, v) == CASE op = "NOT" -> IF v.t = "bool" THEN Bool(~v.v) ELSE IF Odd(v) THEN Vague ELSE Err
                 [] op = "NEG" -> IF v.t = "num" THEN Neg(v) ELSE IF v.t = "quo" THEN [v EXCEPT !.neg = ~v.neg]
                                  ELSE IF Odd(v) THEN Vague ELSE Err
                 [] OTHER -> IF Odd(v) THEN Vague ELSE Err
UnV(op, v) ==
  IF v = Err THEN Err
  ELSE IF v.t # "arr" THEN OneV(op, v)
  ELSE LET e == v.e IN
    CASE op = "LEN" -> IntV(Len(e))
      [] op = "ANY" -> IF \E i \in 1..Len(e) : IsTrue(e[i]) THEN Bool(TRUE)
                       ELSE IF \E i \in 1..Len(e) : Odd(e[i]) THEN Vague ELSE Bool(FALSE)
      [] op = "ALL" -> IF \E i \in 1..Len(e) : ~Odd(e[i]) /\ ~IsTrue(e[i]) THEN Bool(FALSE)
                       ELSE IF \E i \in 1..Len(e) : Odd(e[i]) THEN Vague ELSE Bool(Len(e) > 0)
      [] op = "SUM" -> SumV(e, 1, IntV(0))
      [] OTHER -> IF \E i \in 1..Len(e) : e[i].t = "arr" THEN Vague
                  ELSE Gather([i \in 1..Len(e) |-> OneV(op, e[i])])

RECURSIVE Eval(_, _)
Eval(n, rec) ==
  CASE n.k = "num" -> NumLit(n.v)
    [] n.k = "bool" -> Bool(n.v)
    [] n.k \in {"str", "date", "ts"} -> TextV(n.v)
    [] n.k = "null" -> NullV
    [] n.k = "ident" -> LET v == Lookup(rec, n.v, 1) IN IF v = Err THEN Err ELSE FromGo(v)
    [] n.k = "bin" -> BinV(n.op, Eval(n.l, rec), Eval(n.r, rec))
    [] n.k = "un" -> UnV(n.op, Eval(n.r, rec))
    [] n.k = "arr" -> Gather([i \in 1..Len(n.e) |-> Eval(n.e[i], rec)])

\* --- is r (a logged Go value) the value v?  "ok", "no" or "skip"
RECURSIVE IsValue(_, _)
IsValue(v, r) ==
  CASE v.t \in {"?", "other", "nf"} -> "skip"
    [] v.t \in {"num", "quo"} -> IF r.t = "num" /\ IsDouble(v, r.f) THEN "ok" ELSE "no"
    [] v.t = "time" -> IF r.t = "time" /\ r.v = v.v THEN "ok"
                       ELSE IF "txt" \in DOMAIN v /\ r.t = "str" /\ r.v = v.txt THEN "ok" ELSE "no"
    [] v.t \in {"bool", "str"} -> IF r.t = v.t /\ r.v = v.v THEN "ok" ELSE "no"
    [] v.t = "null" -> IF r.t = "null" THEN "ok" ELSE "no"
    [] v.t = "arr" -> IF r.t # "arr" \/ Len(r.e) # Len(v.e) THEN "no"
                      ELSE LET s == {IsValue(v.e[i], r.e[i]) : i \in 1..Len(v.e)}
                           IN IF "no" \in s THEN "no" ELSE IF "skip" \in s THEN "skip" ELSE "ok"
=============================================================================
