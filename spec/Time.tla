-------------------------------- MODULE Time --------------------------------
(* Instants: <<days since 1970-01-01, second of day, nanosecond>> in UTC.    *)
EXTENDS Integers, Sequences, Text

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days from 1970-01-01 to y-m-d of the proleptic Gregorian calendar
DaysFromCivil(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400          \* floor division in TLA+
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

NoTime == [ok |-> FALSE]
Instant(days, sec, ns) == \* sec may lie outside 0..86399
  [ok |-> TRUE, t |-> <<days + (sec \div 86400), sec % 86400, ns>>]

Digits2(s, i) == IsDigit(At(s, i)) /\ IsDigit(At(s, i + 1))
IsDateAt(s, i) == /\ Digits2(s, i) /\ Digits2(s, i + 2) /\ At(s, i + 4) = 45
                  /\ Digits2(s, i + 5) /\ At(s, i + 7) = 45 /\ Digits2(s, i + 8)
ValidDateAt(s, i) == LET m == Num(s, i + 5, i + 6)
                         d == Num(s, i + 8, i + 9)
                         y == Num(s, i, i + 3)
                     IN m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)
DateDays(s, i) == DaysFromCivil(Num(s, i, i + 3), Num(s, i + 5, i + 6), Num(s, i + 8, i + 9))

\* YYYY-MM-DD, midnight UTC
ParseShort(s) == IF Len(s) = 10 /\ IsDateAt(s, 1) /\ ValidDateAt(s, 1)
                 THEN Instant(DateDays(s, 1), 0, 0) ELSE NoTime

\* nanoseconds of the fraction digits s[a..b] (digits beyond the ninth are dropped)
Nanos(s, a, b) == LET n == IF b - a + 1 > 9 THEN 9 ELSE b - a + 1
                      v == Num(s, a, a + n - 1)
                  IN v * (CASE n = 1 -> 100000000 [] n = 2 -> 10000000 [] n = 3 -> 1000000
                            [] n = 4 -> 100000 [] n = 5 -> 10000 [] n = 6 -> 1000
                            [] n = 7 -> 100 [] n = 8 -> 10 [] OTHER -> 1)

\* RFC 3339: YYYY-MM-DDThh:mm:ss[.f+](Z|+hh:mm|-hh:mm)
ParseLong(s) ==
  IF ~(Len(s) >= 20 /\ IsDateAt(s, 1) /\ s[11] = 84 /\ Digits2(s, 12) /\ s[14] = 58
       /\ Digits2(s, 15) /\ s[17] = 58 /\ Digits2(s, 18)) THEN NoTime
  ELSE LET hh == Num(s, 12, 13)
           mm == Num(s, 15, 16)
           ss == Num(s, 18, 19)
           fe == IF s[20] = 46 THEN DigitsEnd(s, 21) ELSE 20
           fracOk == s[20] # 46 \/ fe > 21
           ns == IF s[20] = 46 /\ fe > 21 THEN Nanos(s, 21, fe - 1) ELSE 0
           z == At(s, fe)
           isZ == z = 90 /\ fe = Len(s)
           isOff == z \in {43, 45} /\ fe + 5 = Len(s) /\ Digits2(s, fe + 1) /\ s[fe + 3] = 58
                    /\ Digits2(s, fe + 4)
           oh == Num(s, fe + 1, fe + 2)
           om == Num(s, fe + 4, fe + 5)
           off == (oh * 60 + om) * 60
       IN IF ~ValidDateAt(s, 1) \/ hh > 23 \/ mm > 59 \/ ss > 59 \/ ~fracOk THEN NoTime
          ELSE IF isZ THEN Instant(DateDays(s, 1), hh * 3600 + mm * 60 + ss, ns)
          ELSE IF isOff /\ oh <= 24 /\ om <= 60
            THEN Instant(DateDays(s, 1), hh * 3600 + mm * 60 + ss - (IF z = 43 THEN off ELSE -off), ns)
          ELSE NoTime

\* spellings the Go time parser is known to read more leniently than RFC 3339
\* (one-digit hours, a comma before the fraction): not judged
Lenient(s) == Len(s) >= 11 /\ IsDateAt(s, 1) /\ s[11] = 84
              /\ (ContainsC(s, 44) \/ (IsDigit(At(s, 12)) /\ At(s, 13) = 58))

AnyTime(s) == LET a == ParseLong(s) IN IF a.ok THEN a ELSE ParseShort(s)

TimeLess(a, b) == \/ a[1] < b[1]
                  \/ a[1] = b[1] /\ a[2] < b[2]
                  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
=============================================================================
