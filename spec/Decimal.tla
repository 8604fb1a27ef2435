------------------------------ MODULE Decimal -------------------------------
(* Exact decimal numbers of any size: [d |-> digits, e |-> int] denotes      *)
(* 0.d1d2d3... * 10^e ; normalised: no leading or trailing zeros, zero is    *)
(* [d |-> <<>>, e |-> 0].                                                    *)
EXTENDS Integers, Sequences, Text

RECURSIVE LeadZ(_, _)
LeadZ(d, i) == IF i <= Len(d) /\ d[i] = 0 THEN LeadZ(d, i + 1) ELSE i
RECURSIVE TrailZ(_, _)
TrailZ(d, i) == IF i >= 1 /\ d[i] = 0 THEN TrailZ(d, i - 1) ELSE i

Norm(d, e) == LET a == LeadZ(d, 1)
                  b == TrailZ(d, Len(d))
              IN IF a > Len(d) THEN [d |-> <<>>, e |-> 0]
                 ELSE [d |-> SubSeq(d, a, b), e |-> e - (a - 1)]

RECURSIVE DigLess(_, _, _)
DigLess(x, y, i) == IF i > Len(x) THEN i <= Len(y)
                    ELSE IF i > Len(y) THEN FALSE
                    ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE DigLess(x, y, i + 1)
DecLess(x, y) == IF x.d = <<>> THEN y.d # <<>>
                 ELSE IF y.d = <<>> THEN FALSE
                 ELSE IF x.e # y.e THEN x.e < y.e ELSE DigLess(x.d, y.d, 1)
DecLeq(x, y) == ~DecLess(y, x)

\* multiply the digit sequence d (an integer) by a small factor m
RECURSIVE MulAt(_, _, _, _, _)
MulAt(d, m, i, carry, acc) ==
  IF i >= 1 THEN LET v == d[i] * m + carry IN MulAt(d, m, i - 1, v \div 10, <<v % 10>> \o acc)
  ELSE IF carry > 0 THEN MulAt(d, m, i, carry \div 10, <<carry % 10>> \o acc)
  ELSE acc
DecMul(x, m) == IF x.d = <<>> THEN x
                ELSE LET p == MulAt(x.d, m, Len(x.d), 0, <<>>)
                     IN Norm(p, x.e + Len(p) - Len(x.d))
RECURSIVE DecMulN(_, _, _)
DecMulN(x, m, n) == IF n = 0 THEN x ELSE DecMulN(DecMul(x, m), m, n - 1)

\* magnitude of an unsigned literal text  D* [. D*] [eE [+-] D+]  s[a..b];
\* exponents beyond +-9999 are clamped (the value is 0 or infinite anyway)
DigitsOf(s, a, b) == [i \in 1..(b - a + 1) |-> s[a + i - 1] - 48]
ExpOf(s, a, b) == LET neg == At(s, a) = 45
                      f == IF At(s, a) \in {43, 45} THEN a + 1 ELSE a
                      dd == DigitsOf(s, f, b)
                      z == LeadZ(dd, 1)
                      n == IF Len(dd) - z + 1 > 4 THEN 9999 ELSE Num(s, f + z - 1, b)
                  IN IF neg THEN -n ELSE n
Magnitude(s, a, b) ==
  LET i1 == DigitsEnd(s, a)
      hasDot == i1 <= b /\ s[i1] = 46
      i2 == IF hasDot THEN DigitsEnd(s, i1 + 1) ELSE i1
      ex == IF i2 <= b /\ s[i2] \in {69, 101} THEN ExpOf(s, i2 + 1, b) ELSE 0
      int == DigitsOf(s, a, i1 - 1)
      frac == IF hasDot THEN DigitsOf(s, i1 + 1, i2 - 1) ELSE <<>>
  IN Norm(int \o frac, Len(int) + ex)

\* the power of a size suffix
UnitOf(c) == CASE LowC(c) = 107 -> 1 [] LowC(c) = 109 -> 2 [] LowC(c) = 103 -> 3
               [] LowC(c) = 116 -> 4 [] LowC(c) = 112 -> 5 [] OTHER -> 0

(* A float64 is logged with the exact bounds of its rounding interval:       *)
(* [neg, lo, loe, hi, hie, unb]: lo*10^(loe-..)... as normalised decimals     *)
(* 0.lo * 10^loe <= |x| <= 0.hi * 10^hie, unb = no upper bound (infinity).   *)
InInterval(x, f) == /\ DecLeq([d |-> f.lo, e |-> f.loe], x)
                    /\ f.unb \/ DecLeq(x, [d |-> f.hi, e |-> f.hie])
\* the same for the interval widened by one double on either side (wlo, whi)
InWide(x, f) == /\ DecLeq([d |-> f.wlo, e |-> f.wloe], x)
                /\ f.wunb \/ DecLeq(x, [d |-> f.whi, e |-> f.whie])
=============================================================================
