-------------------------------- MODULE Lex6 --------------------------------
(* The tokens of the v6 language.  A token is [k, v, a, b]: kind, text and   *)
(* the first and last index of the text it was read from.                    *)
EXTENDS Integers, Sequences, Text, Time

KeywordList == <<"like", "ilike", "and", "or", "between", "in", "is", "null", "not",
                 "true", "false", "len", "any", "all", "sum">>
KeywordTxt == [i \in 1..Len(KeywordList) |-> Txt(KeywordList[i])]
\* the keyword spelled by the text w in any letter case, or "ident"
KeywordOf(w) == LET l == Low(w)
                    is == {i \in 1..Len(KeywordList) : KeywordTxt[i] = l}
                IN IF Len(w) > 7 \/ is = {} THEN "ident" ELSE KeywordList[CHOOSE i \in is : TRUE]

\* --- identifiers: letter or _, then letters, digits, _ . / and [..] suffixes
IdStart(c) == IsLetter(c) \/ c = 95
IdCont(c)  == IsLetter(c) \/ IsDigit(c) \/ c \in {95, 46, 47}
SufChar(c) == IsLetter(c) \/ IsDigit(c) \/ c \in {95, 46, 47, 45}
RECURSIVE SufEnd(_, _)
SufEnd(s, i) == IF SufChar(At(s, i)) THEN SufEnd(s, i + 1) ELSE i
\* index after the array suffix that begins at i, or i if there is none
Suffix(s, i) == IF At(s, i) # 91 THEN i
                ELSE IF At(s, i + 1) = 42 /\ At(s, i + 2) = 93 THEN i + 3
                ELSE LET e == SufEnd(s, i + 1)
                     IN IF e > i + 1 /\ At(s, e) = 93 THEN e + 1 ELSE i
RECURSIVE IdEnd(_, _)
IdEnd(s, i) == IF IdCont(At(s, i)) THEN IdEnd(s, i + 1)
               ELSE LET e == Suffix(s, i) IN IF e > i THEN IdEnd(s, e) ELSE i

\* --- numbers, dates: the longest of the forms that match at i
Sign(s, i) == IF At(s, i) \in {43, 45} THEN i + 1 ELSE i
IntEnd(s, i) == LET a == Sign(s, i) IN IF IsDigit(At(s, a)) THEN DigitsEnd(s, a) ELSE i
\* index after the mantissa (integer or decimal)
MantEnd(s, i) == LET e == IntEnd(s, i)
                 IN IF e > i /\ At(s, e) = 46 THEN DigitsEnd(s, e + 1) ELSE e
\* a number; the exponent or suffix is taken from the longest mantissa first
ExpEnd(s, e) == IF At(s, e) \in {69, 101}
                THEN LET a == Sign(s, e + 1) IN IF IsDigit(At(s, a)) THEN DigitsEnd(s, a) ELSE e
                ELSE e
SizeLetters == {107, 75, 109, 77, 103, 71, 116, 84, 112, 80}
SizeEnd(s, e) == IF At(s, e) \in SizeLetters
                 THEN IF At(s, e + 1) \in {105, 73} THEN e + 2 ELSE e + 1
                 ELSE e
NumEnd(s, i) == LET m == MantEnd(s, i)
                IN IF m = i THEN i
                   ELSE LET x == ExpEnd(s, m)
                            z == SizeEnd(s, m)
                        IN IF x > z THEN x ELSE z
\* RFC3339 shape at i: index after it, or i
LongEnd(s, i) ==
  IF IsDateAt(s, i) /\ At(s, i + 10) = 84 /\ Digits2(s, i + 11) /\ At(s, i + 13) = 58
     /\ Digits2(s, i + 14) /\ At(s, i + 16) = 58 /\ Digits2(s, i + 17)
  THEN LET f == IF At(s, i + 19) = 46 /\ IsDigit(At(s, i + 20)) THEN DigitsEnd(s, i + 20) ELSE i + 19
           z == At(s, f)
       IN IF z = 90 THEN f + 1
          ELSE IF z \in {43, 45} /\ Digits2(s, f + 1) /\ At(s, f + 3) = 58 /\ Digits2(s, f + 4) THEN f + 6
          ELSE i
  ELSE i

\* --- quoted strings: index of the closing quote, or 0
RECURSIVE CloseQuote(_, _, _)
CloseQuote(s, i, q) == IF i > Len(s) THEN 0
                       ELSE IF s[i] = q THEN i
                       ELSE IF s[i] = 92 THEN (IF i + 1 > Len(s) \/ s[i + 1] = 10 THEN 0
                                               ELSE CloseQuote(s, i + 2, q))
                       ELSE CloseQuote(s, i + 1, q)
Escape(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 98 -> 8 [] c = 102 -> 12
               [] OTHER -> c
RECURSIVE Unescape(_, _, _)
Unescape(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE IF s[i] = 92 /\ i < Len(s) THEN Unescape(s, i + 2, Append(acc, Escape(s[i + 1])))
                       ELSE Unescape(s, i + 1, Append(acc, s[i]))
\* what a quoted text denotes: a date, a timestamp or a string
QuotedKind(v) == IF Len(v) = 10 /\ v[5] = 45 /\ v[8] = 45 THEN "date"
                 ELSE IF ContainsC(v, 84) /\ (ContainsC(v, 90) \/ ContainsC(v, 43)) THEN "ts"
                 ELSE "str"

Tok(k, v, a, b) == [k |-> k, v |-> v, a |-> a, b |-> b]
OpAt(s, i) ==
  LET c == s[i]
      d == At(s, i + 1)
  IN CASE c = 60 /\ d = 61 -> <<"LE", 2>>
       [] c = 60 /\ d = 62 -> <<"NE", 2>>
       [] c = 60 -> <<"LT", 1>>
       [] c = 62 /\ d = 61 -> <<"GE", 2>>
       [] c = 62 -> <<"GT", 1>>
       [] c = 33 /\ d = 61 -> <<"NE", 2>>
       [] c = 61 -> <<"EQ", 1>>
       [] c = 126 /\ d = 61 -> <<"REQ", 2>>
       [] c = 126 /\ d = 33 -> <<"RNE", 2>>
       [] c = 40 -> <<"(", 1>>
       [] c = 41 -> <<")", 1>>
       [] c = 44 -> <<",", 1>>
       [] c = 43 -> <<"+", 1>>
       [] c = 45 -> <<"-", 1>>
       [] c = 42 -> <<"*", 1>>
       [] c = 47 -> <<"/", 1>>
       [] c = 37 -> <<"%", 1>>
       [] c = 91 -> <<"[", 1>>
       [] c = 93 -> <<"]", 1>>
       [] OTHER -> <<"bad", 1>>

\* the token that begins at i (not a space)
TokenAt(s, i) ==
  LET c == s[i] IN
  IF IdStart(c) THEN LET e == IdEnd(s, i)
                         w == SubSeq(s, i, e - 1)
                     IN Tok(KeywordOf(w), w, i, e - 1)
  ELSE IF IsDigit(c) \/ (c \in {43, 45} /\ IsDigit(At(s, i + 1))) THEN
    LET n == NumEnd(s, i)
        l == LongEnd(s, i)
    IN IF l > i /\ l >= n THEN Tok("ts", SubSeq(s, i, l - 1), i, l - 1)
       ELSE IF IsDateAt(s, i) /\ i + 10 >= n THEN Tok("date", SubSeq(s, i, i + 9), i, i + 9)
       ELSE Tok("num", SubSeq(s, i, n - 1), i, n - 1)
  ELSE IF c \in {39, 34, 96} THEN
    LET e == CloseQuote(s, i + 1, c)
    IN IF e = 0 THEN Tok("bad", <<c>>, i, i)
       ELSE LET v == Unescape(SubSeq(s, i + 1, e - 1), 1, <<>>)
            IN Tok(QuotedKind(v), v, i, e)
  ELSE LET o == OpAt(s, i) IN Tok(o[1], <<>>, i, i + o[2] - 1)

RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ IsSpaceC(s[i]) THEN SkipSpace(s, i + 1) ELSE i
\* all tokens of s up to and including the first bad one, then an end token
\* (by a fold: TLC looks names up in the whole stack of calls)
\* st: i - the next place to read, out - the tokens so far
LexStep(s, st, i) ==
  IF i < st.i THEN st
  ELSE IF IsSpaceC(s[i]) THEN [st EXCEPT !.i = i + 1]
  ELSE LET t == TokenAt(s, i)
       IN [i |-> IF t.k = "bad" THEN Len(s) + 2 ELSE t.b + 1, out |-> Append(st.out, t)]
Lex(s) == LET r == Fold(LAMBDA st, i : LexStep(s, st, i), [i |-> 1, out |-> <<>>], [i \in 1..Len(s) |-> i])
          IN IF r.i > Len(s) + 1 THEN r.out ELSE Append(r.out, Tok("end", <<>>, Len(s) + 1, Len(s)))
=============================================================================
