-------------------------------- MODULE Num ---------------------------------
(* Numbers as the evaluator sees them.  A number [neg, d, e] is an exact     *)
(* decimal and stands for the double nearest to it.  Where rounding could    *)
(* matter the operations answer Vague: the specification does not decide.    *)
EXTENDS Integers, Sequences, Decimal

Vague == [t |-> "?"]
Number(neg, x) == [t |-> "num", neg |-> neg /\ x.d # <<>>, d |-> x.d, e |-> x.e]
Mag(x) == [d |-> x.d, e |-> x.e]
Zero(x) == x.d = <<>>
IntV(n) == LET RECURSIVE Ds(_, _)
              Ds(m, acc) == IF m = 0 THEN acc ELSE Ds(m \div 10, <<m % 10>> \o acc)
              a == IF n < 0 THEN -n ELSE n
              ds == Ds(a, <<>>)
          IN Number(n < 0, Norm(ds, Len(ds)))

Places(x) == IF Len(x.d) > x.e THEN Len(x.d) - x.e ELSE 0   \* digits after the point
\* a whole number of 16 digits or more that is 2^k times less than 2^53
TwoTo53 == [d |-> <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 2>>, e |-> 16]
RECURSIVE Halves(_)
Halves(m) == IF Len(m.d) > m.e THEN FALSE \* odd
             ELSE DecLeq(m, TwoTo53) \/ LET h == DecMul(m, 5) IN Halves([d |-> h.d, e |-> h.e - 1])
\* the double nearest to x is x itself
Exact(x) == \/ Zero(x)
            \/ x.e > 15 /\ x.e <= 40 /\ Places(x) = 0 /\ Halves(Mag(x))
            \/ /\ x.e <= 15 /\ x.e > -12 /\ Places(x) <= 14
               /\ LET y == DecMulN(Mag(x), 2, Places(x))
                  IN Places(y) = 0 /\ y.e <= 15
\* different numbers of this kind have different doubles
Short(x) == Len(x.d) <= 15 /\ x.e < 300 /\ x.e > -300

\* x < y, x = y: "lt", "eq", "gt" or "?"
Order(x, y) ==
  IF x.neg = y.neg /\ Mag(x) = Mag(y) THEN "eq"
  ELSE IF x.neg # y.neg /\ x.e > -300 /\ y.e > -300 THEN (IF x.neg THEN "lt" ELSE "gt")
  ELSE IF Zero(y) /\ x.e > -300 THEN (IF x.neg THEN "lt" ELSE "gt")
  ELSE IF Zero(x) /\ y.e > -300 THEN (IF y.neg THEN "gt" ELSE "lt")
  ELSE IF (~Short(x) \/ ~Short(y)) /\ ~(Exact(x) /\ Exact(y)) /\ (Zero(x) \/ Zero(y) \/ (x.e < y.e + 2 /\ y.e < x.e + 2)) THEN "?"
  ELSE IF DecLess(Mag(x), Mag(y)) = x.neg THEN "gt" ELSE "lt"

\* --- sums.  Digits of x from place hi (the first) down to place lo
Digit(x, i) == LET j == x.e - i + 1 IN IF j >= 1 /\ j <= Len(x.d) THEN x.d[j] ELSE 0
\* the digit of place i has weight 10^(i-1); places lo..hi
RECURSIVE AddAt(_, _, _, _, _, _), SubAt(_, _, _, _, _, _)
AddAt(x, y, i, hi, c, acc) ==
  IF i > hi THEN <<c>> \o acc
  ELSE LET v == Digit(x, i) + Digit(y, i) + c IN AddAt(x, y, i + 1, hi, v \div 10, <<v % 10>> \o acc)
SubAt(x, y, i, hi, c, acc) == \* x >= y
  IF i > hi THEN acc
  ELSE LET v == Digit(x, i) - Digit(y, i) - c
       IN SubAt(x, y, i + 1, hi, IF v < 0 THEN 1 ELSE 0, <<v % 10>> \o acc)
Smaller(a, b) == IF a < b THEN a ELSE b
Larger(a, b) == IF a > b THEN a ELSE b
LowPlace(x) == x.e - Len(x.d) + 1
MagAdd(x, y) == LET lo == Smaller(LowPlace(x), LowPlace(y))
                    hi == Larger(x.e, y.e)
                IN Norm(AddAt(x, y, lo, hi, 0, <<>>), hi + 1)
MagSub(x, y) == LET lo == Smaller(LowPlace(x), LowPlace(y))
                    hi == Larger(x.e, y.e)
                IN Norm(SubAt(x, y, lo, hi, 0, <<>>), hi)
Neg(x) == [x EXCEPT !.neg = ~x.neg /\ ~Zero(x)]
Add(x, y) ==
  IF Zero(x) THEN y
  ELSE IF Zero(y) THEN x
  ELSE IF ~Exact(x) \/ ~Exact(y) THEN Vague
  ELSE IF x.neg = y.neg THEN Number(x.neg, MagAdd(Mag(x), Mag(y)))
  ELSE IF DecLess(Mag(x), Mag(y)) THEN Number(y.neg, MagSub(Mag(y), Mag(x)))
  ELSE Number(x.neg, MagSub(Mag(x), Mag(y)))
Sub(x, y) == Add(x, Neg(y))

RECURSIVE MagMulAt(_, _, _, _)
MagMulAt(x, y, i, acc) == \* acc * 10 + x * digit i of y; acc, x as integers scaled alike
  IF i > Len(y.d) THEN acc
  ELSE LET a == [d |-> acc.d, e |-> IF acc.d = <<>> THEN 0 ELSE acc.e + 1]
           b == DecMul(x, y.d[i])
           s == IF a.d = <<>> THEN b ELSE IF b.d = <<>> THEN a ELSE MagAdd(a, b)
       IN MagMulAt(x, y, i + 1, s)
MagMul(x, y) == LET p == MagMulAt(x, y, 1, [d |-> <<>>, e |-> 0])
                IN [d |-> p.d, e |-> IF p.d = <<>> THEN 0 ELSE p.e + y.e - Len(y.d)]
One(x) == ~x.neg /\ Mag(x) = [d |-> <<1>>, e |-> 1]
Mul(x, y) == IF One(x) THEN y ELSE IF One(y) THEN x
             ELSE IF Zero(x) \/ Zero(y) THEN (IF Short(x) /\ Short(y) THEN IntV(0) ELSE Vague)
             ELSE IF ~Exact(x) \/ ~Exact(y) THEN Vague
             ELSE Number(x.neg # y.neg, MagMul(Mag(x), Mag(y)))

\* --- small integers
RECURSIVE ToInt(_, _, _)
ToInt(x, i, acc) == IF i < 1 THEN acc ELSE ToInt(x, i - 1, acc * 10 + Digit(x, i))
IntPartSmall(x) == x.e <= 9
IntPart(x) == LET a == ToInt(Mag(x), x.e, 0) IN IF x.neg THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Log2(_, _)
Log2(n, k) == IF n = 1 THEN k ELSE IF n % 2 = 1 THEN -1 ELSE Log2(n \div 2, k + 1)
Shift(x, k) == [d |-> x.d, e |-> IF x.d = <<>> THEN 0 ELSE x.e + k]
\* x / y, y not zero; a quotient that is no finite binary fraction is kept as such
Div(x, y) ==
  IF One(y) THEN x
  ELSE IF ~Exact(x) \/ ~Exact(y) THEN Vague
  ELSE IF Zero(x) THEN IntV(0)
  ELSE LET k == Larger(Places(x), Places(y))
           a == Shift(Mag(x), k)
           b == Shift(Mag(y), k)
       IN IF a.e > 9 \/ b.e > 9 THEN Vague
          ELSE LET m == ToInt(a, a.e, 0)
                   n == ToInt(b, b.e, 0)
                   g == Gcd(m, n)
                   l == Log2(n \div g, 0)
                   q == Mag(IntV(m \div g))
               IN IF l >= 0 /\ l <= 20 THEN Number(x.neg # y.neg, Shift(DecMulN(q, 5, l), -l))
                  ELSE IF n \div g < 1000000
                    THEN [t |-> "quo", neg |-> x.neg # y.neg, d |-> q.d, e |-> q.e, by |-> n \div g]
                  ELSE Vague
\* the remainder of whole numbers of any size, by long division
Whole(x) == IF x.e <= 0 THEN [d |-> <<>>, e |-> 0] ELSE Norm([i \in 1..x.e |-> Digit(x, x.e - i + 1)], x.e)
RECURSIVE Reduce(_, _), LongModAt(_, _, _, _)
Reduce(r, y) == IF DecLess(r, y) THEN r ELSE Reduce(MagSub(r, y), y)
LongModAt(x, y, i, r) ==
  IF i < 1 THEN r
  ELSE LET dg == Digit(x, i)
           a == [d |-> r.d, e |-> IF r.d = <<>> THEN 0 ELSE r.e + 1]
           b == IF dg = 0 THEN a ELSE IF a.d = <<>> THEN [d |-> <<dg>>, e |-> 1] ELSE MagAdd(a, [d |-> <<dg>>, e |-> 1])
       IN LongModAt(x, y, i - 1, Reduce(b, y))
LongMod(x, y) == LongModAt(x, y, x.e, [d |-> <<>>, e |-> 0])
\* the remainder of the integer parts, with the sign of x; "zero" if y's is zero
Mod(x, y) ==
  IF y.e <= 0 THEN (IF Short(y) THEN [t |-> "zero"] ELSE Vague)
  ELSE IF (~Short(x) /\ ~Exact(x)) \/ (~Short(y) /\ ~Exact(y)) THEN Vague
  ELSE IF ~IntPartSmall(x) \/ ~IntPartSmall(y)
    THEN IF x.e > 18 \/ y.e > 18 \/ (x.e > 0 /\ ~Exact(x)) \/ ~Exact(y) THEN Vague
         ELSE Number(x.neg, LongMod(Whole(x), Whole(y)))
  ELSE LET a == IntPart(x)
           b == IntPart(y)
           r == (IF a < 0 THEN -a ELSE a) % (IF b < 0 THEN -b ELSE b)
       IN IntV(IF a < 0 THEN -r ELSE r)

\* is f (a logged double) the double that x stands for
IsDouble(x, f) ==
  /\ "nan" \notin DOMAIN f
  /\ IF x.t = "quo"
     THEN /\ f.neg = x.neg
          /\ DecLeq(DecMul([d |-> f.lo, e |-> f.loe], x.by), Mag(x))
          /\ f.unb \/ DecLeq(Mag(x), DecMul([d |-> f.hi, e |-> f.hie], x.by))
     ELSE /\ InInterval(Mag(x), f)
          /\ f.neg = x.neg \/ Zero(x)
=============================================================================
