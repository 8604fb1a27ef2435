------------------------------- MODULE Lang45 -------------------------------
(* The language of v4 and v5 (V is 4 or 5): tokens, grammar, trees.          *)
(* Trees are those of Gram6; ident nodes carry the name without its quotes.  *)
EXTENDS Integers, Sequences, Gram6, Decimal

KeywordsOf(V) == {"like", "ilike", "and", "or", "between", "in", "is", "null", "not"}
                 \cup (IF V = 5 THEN {"true", "false"} ELSE {})
\* KeywordOf (Lex6) knows a few words more
Keyword45(V, w) == LET k == KeywordOf(w) IN IF k \in KeywordsOf(V) THEN k ELSE "ident"

Space45(c) == c \in {9, 10, 11, 13, 32}
Id45(V, c) == IsLetter(c) \/ IsDigit(c) \/ c = 95 \/ (V = 5 /\ c \in {46, 47})
RECURSIVE Id45End(_, _, _)
Id45End(V, s, i) == IF i <= Len(s) /\ Id45(V, s[i]) THEN Id45End(V, s, i + 1) ELSE i

\* the last place at which a text quoted with q from i on may end (0: none); a
\* doubled quote stands for one inside
RECURSIVE QuoteEnd(_, _, _, _)
QuoteEnd(s, i, q, last) ==
  IF i > Len(s) THEN last
  ELSE IF s[i] # q THEN QuoteEnd(s, i + 1, q, last)
  ELSE IF At(s, i + 1) = q THEN QuoteEnd(s, i + 2, q, i) ELSE i
RECURSIVE Undouble(_, _, _)
Undouble(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE IF s[i] = 39 /\ At(s, i + 1) = 39 THEN Undouble(s, i + 2, Append(acc, 39))
                       ELSE Undouble(s, i + 1, Append(acc, s[i]))
RECURSIVE BracketEnd(_, _)
BracketEnd(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 93 THEN i ELSE BracketEnd(s, i + 1)

\* --- things that begin with a digit (or a dot): indices after them, or i
Num45End(V, s, i) ==
  LET a == DigitsEnd(s, i)
      m == IF At(s, a) = 46 THEN DigitsEnd(s, a + 1) ELSE a
      x == IF (a > i \/ m > i + 1) /\ m > i THEN ExpEnd(s, m) ELSE i
      u == IF V = 5 /\ a > i /\ At(s, a) \in {75, 77, 71, 84, 80} THEN (IF At(s, a + 1) = 105 THEN a + 2 ELSE a + 1) ELSE i
  IN IF u > x THEN u ELSE x
ClockEnd(s, i) ==
  IF Digits2(s, i) /\ At(s, i + 2) = 58 /\ Digits2(s, i + 3) /\ At(s, i + 5) = 58 /\ Digits2(s, i + 6)
  THEN IF At(s, i + 8) = 46 /\ IsDigit(At(s, i + 9)) THEN DigitsEnd(s, i + 9) ELSE i + 8
  ELSE i

Op45(V, s, i) ==
  LET c == s[i]
      d == At(s, i + 1)
  IN IF c = 61 THEN <<"EQ", 1>>
     ELSE IF c \in {91, 93} THEN <<"bad", 1>>
     ELSE IF c = 46 THEN (IF V = 4 THEN <<".", 1>> ELSE <<"bad", 1>>)
     ELSE OpAt(s, i)

Token45(V, s, i) ==
  LET c == s[i] IN
  IF IdStart(c) THEN LET e == Id45End(V, s, i)
                         w == SubSeq(s, i, e - 1)
                     IN Tok(Keyword45(V, w), w, i, e - 1)
  ELSE IF IsDigit(c) \/ (c = 46 /\ IsDigit(At(s, i + 1))) THEN
    LET n == Num45End(V, s, i)
        l == IF V = 5 THEN LongEnd(s, i) ELSE i
        k == IF V = 5 THEN ClockEnd(s, i) ELSE i
    IN IF l > n THEN Tok("ts", SubSeq(s, i, l - 1), i, l - 1)
       ELSE IF V = 5 /\ IsDateAt(s, i) /\ i + 10 > n THEN Tok("date", SubSeq(s, i, i + 9), i, i + 9)
       ELSE IF k > n THEN Tok("stray", <<>>, i, k - 1)
       ELSE Tok("num", SubSeq(s, i, n - 1), i, n - 1)
  ELSE IF c = 39 THEN
    LET e == QuoteEnd(s, i + 1, c, 0)
    IN IF e = 0 THEN Tok("bad", <<>>, i, i) ELSE Tok("str", Undouble(SubSeq(s, i + 1, e - 1), 1, <<>>), i, e)
  ELSE IF c \in {34, 96, 91} THEN
    LET e == IF c = 91 THEN BracketEnd(s, i + 1) ELSE QuoteEnd(s, i + 1, c, 0)
    IN IF e = 0 THEN Tok("bad", <<>>, i, i)
       ELSE Tok("ident", IF V = 5 THEN SubSeq(s, i + 1, e - 1) ELSE SubSeq(s, i, e), i, e)
  ELSE IF V = 5 /\ c \in {43, 45} /\ Digits2(s, i + 1) /\ At(s, i + 3) = 58 /\ Digits2(s, i + 4) THEN Tok("stray", <<>>, i, i + 5)
  ELSE LET o == Op45(V, s, i) IN Tok(o[1], <<>>, i, i + o[2] - 1)

Step45(V, s, st, i) ==
  IF i < st.i THEN st
  ELSE IF Space45(s[i]) THEN [st EXCEPT !.i = i + 1]
  ELSE LET t == Token45(V, s, i)
       IN [i |-> IF t.k = "bad" THEN Len(s) + 2 ELSE t.b + 1, out |-> Append(st.out, t)]
Lex45(V, s) == LET r == Fold(LAMBDA st, i : Step45(V, s, st, i), [i |-> 1, out |-> <<>>], [i \in 1..Len(s) |-> i])
               IN IF r.i > Len(s) + 1 THEN r.out ELSE Append(r.out, Tok("end", <<>>, Len(s) + 1, Len(s)))

\* --- grammar
No == [ok |-> FALSE]
Math45 == {"+", "-", "*", "/", "%"}

\* a literal at i; a number keeps its sign
Literal45(V, t, i) ==
  LET k == t[i].k IN
  CASE k \in {"+", "-"} -> IF t[i + 1].k = "num" THEN Good([k |-> "num", v |-> <<IF k = "-" THEN 45 ELSE 43>> \o t[i + 1].v], i + 2) ELSE No
    [] k \in {"num", "str", "date", "ts"} -> Good([k |-> k, v |-> t[i].v], i + 1)
    [] k = "true" -> Good([k |-> "bool", v |-> TRUE], i + 1)
    [] k = "false" -> Good([k |-> "bool", v |-> FALSE], i + 1)
    [] OTHER -> No

\* a column's name; in v4 it has up to three parts
Column45(V, t, i) ==
  IF V = 5 \/ t[i + 1].k # "." \/ t[i + 2].k # "ident" THEN Good([k |-> "ident", v |-> t[i].v], i + 1)
  ELSE IF t[i + 3].k # "." \/ t[i + 4].k # "ident" THEN Good([k |-> "ident", v |-> t[i].v \o <<46>> \o t[i + 2].v], i + 3)
  ELSE Good([k |-> "ident", v |-> t[i].v \o <<46>> \o t[i + 2].v \o <<46>> \o t[i + 4].v], i + 5)

\* arithmetic: the usual precedence, from left to right; the first operand of
\* all (lead) is a column or in parentheses
RECURSIVE Sum45(_, _, _, _), SumRest45(_, _, _), Prod45(_, _, _, _), ProdRest45(_, _, _), Atom45(_, _, _, _)
Atom45(V, t, i, lead) ==
  CASE t[i].k = "ident" -> Column45(V, t, i)
    [] t[i].k = "(" -> LET q == Sum45(V, t, i + 1, TRUE) IN IF q.ok /\ t[q.i].k = ")" THEN Good(q.n, q.i + 1) ELSE No
    [] OTHER -> IF lead THEN No ELSE Literal45(V, t, i)
Prod45(V, t, i, lead) == ProdRest45(V, t, Atom45(V, t, i, lead))
ProdRest45(V, t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k \in {"*", "/", "%"}
    THEN LET q == Atom45(V, t, r.i + 1, FALSE) IN IF q.ok THEN ProdRest45(V, t, Good(Bin(MulOp(t[r.i].k), r.n, q.n), q.i)) ELSE q
  ELSE r
Sum45(V, t, i, lead) == SumRest45(V, t, Prod45(V, t, i, lead))
SumRest45(V, t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k \in {"+", "-"}
    THEN LET q == Prod45(V, t, r.i + 1, FALSE) IN IF q.ok THEN SumRest45(V, t, Good(Bin(AddOp(t[r.i].k), r.n, q.n), q.i)) ELSE q
  ELSE r

\* the right side of a comparison
Right45(V, t, i) == IF V = 5 /\ t[i].k \in {"ident", "("} THEN Sum45(V, t, i, TRUE) ELSE Literal45(V, t, i)

RECURSIVE Or45(_, _, _), And45(_, _, _), Not45(_, _, _), OrRest45(_, _, _), AndRest45(_, _, _), List45(_, _, _, _)
\* literals of a list from i on
List45(V, t, i, acc) ==
  LET q == Literal45(V, t, i) IN
  IF ~q.ok THEN No
  ELSE LET e == Append(acc, q.n) IN
       CASE t[q.i].k = ")" -> Good(Arr(e), q.i + 1)
         [] t[q.i].k = "," -> List45(V, t, q.i + 1, e)
         [] OTHER -> No
Negated(op) == CASE op = "IN" -> "NOT IN" [] op = "BETWEEN" -> "NOT BETWEEN"
\* what follows the left side r of a condition
Tail45(V, t, r) ==
  LET k0 == t[r.i].k
      neg == k0 = "not"
      j == IF neg THEN r.i + 1 ELSE r.i
      k == t[j].k
      Neg(n) == IF neg THEN Un("NOT", n) ELSE n
  IN CASE k \in CmpOps /\ ~neg -> LET q == Right45(V, t, j + 1) IN IF q.ok THEN Good(Bin(k, r.n, q.n), q.i) ELSE No
       [] k \in {"like", "ilike"} -> LET q == Literal45(V, t, j + 1) IN IF q.ok THEN Good(Neg(Bin(ListOp(k), r.n, q.n)), q.i) ELSE No
       [] k = "in" -> IF t[j + 1].k # "(" THEN No
                      ELSE LET q == IF t[j + 2].k = ")" THEN Good(Arr(<<>>), j + 3) ELSE List45(V, t, j + 2, <<>>)
                           IN IF q.ok THEN Good(Bin(IF neg THEN "NOT IN" ELSE "IN", r.n, q.n), q.i) ELSE No
       [] k = "between" -> LET a == Literal45(V, t, j + 1) IN
                           IF ~a.ok THEN No ELSE IF t[a.i].k # "and" THEN No
                           ELSE LET b == Literal45(V, t, a.i + 1)
                                IN IF b.ok THEN Good(Bin(IF neg THEN "NOT BETWEEN" ELSE "BETWEEN", r.n, Arr(<<a.n, b.n>>)), b.i) ELSE No
       [] k = "is" /\ ~neg ->
            LET isnt == t[j + 1].k = "not"
                m == IF isnt THEN j + 2 ELSE j + 1
            IN IF t[m].k = "null" THEN Good(Un(IF isnt THEN "IS NOT NULL" ELSE "IS NULL", r.n), m + 1)
               ELSE LET q == Literal45(V, t, m) IN IF q.ok THEN Good(Bin(IF isnt THEN "NE" ELSE "EQ", r.n, q.n), q.i) ELSE No
       [] OTHER -> No
Cond45(V, t, i) == LET r == Sum45(V, t, i, TRUE) IN IF r.ok THEN Tail45(V, t, r) ELSE No
Not45(V, t, i) ==
  IF t[i].k = "not" THEN LET q == Not45(V, t, i + 1) IN IF q.ok THEN Good(Un("NOT", q.n), q.i) ELSE No
  ELSE LET c == Cond45(V, t, i) IN
       IF c.ok THEN c
       ELSE IF t[i].k # "(" THEN No
       ELSE LET q == Or45(V, t, i + 1) IN IF q.ok /\ t[q.i].k = ")" THEN Good(q.n, q.i + 1) ELSE No
And45(V, t, i) == AndRest45(V, t, Not45(V, t, i))
AndRest45(V, t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k = "and" THEN LET q == Not45(V, t, r.i + 1) IN IF q.ok THEN AndRest45(V, t, Good(Bin("AND", r.n, q.n), q.i)) ELSE No
  ELSE r
Or45(V, t, i) == OrRest45(V, t, And45(V, t, i))
OrRest45(V, t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k = "or" THEN LET q == And45(V, t, r.i + 1) IN IF q.ok THEN OrRest45(V, t, Good(Bin("OR", r.n, q.n), q.i)) ELSE No
  ELSE r

\* --- literals that denote nothing, operands of the wrong kind
Size45(v) == LET n == Len(v)
                 b == IF v[n] = 105 THEN n - 2 ELSE IF v[n] \in {75, 77, 71, 84, 80} THEN n - 1 ELSE n
             IN [u |-> IF b < n THEN UnitOf(v[b + 1]) ELSE 0, m |-> Magnitude(v, Sign(v, 1), b)]
Mag45(v) == LET z == Size45(v) IN DecMulN(z.m, 1024, z.u)
MathOp(op) == op \in {"ADD", "SUB", "MUL", "DIV", "MOD"}
\* "ok", "bad" or "?" (at the edge of what a double holds, or a lenient date)
RECURSIVE Sound(_, _), Sounds(_, _)
Sounds(V, e) == LET all == {Sound(V, e[i]) : i \in 1..Len(e)}
                IN IF "bad" \in all THEN "bad" ELSE IF "?" \in all THEN "?" ELSE "ok"
Sound(V, n) ==
  CASE n.k = "num" -> LET x == Mag45(n.v) IN IF x.e > 309 THEN "bad" ELSE IF x.e = 309 THEN "?" ELSE "ok"
    [] n.k = "date" -> IF ParseShort(n.v).ok THEN "ok" ELSE "bad"
    [] n.k = "ts" -> IF Lenient(n.v) THEN "?" ELSE IF ParseLong(n.v).ok THEN "ok" ELSE "bad"
    [] n.k = "un" -> Sound(V, n.r)
    [] n.k = "arr" -> Sounds(V, n.e)
    [] n.k = "bin" ->
         IF (MathOp(n.op) /\ "str" \in {n.l.k, n.r.k})
            \/ (n.op \in {"REQ", "RNE"} /\ n.r.k \notin (IF V = 5 THEN {"str", "ident"} ELSE {"str"}))
            \/ (n.op \in {"LIKE", "ILIKE"} /\ n.r.k # "str") THEN "bad"
         ELSE Sounds(V, <<n.l, n.r>>)
    [] OTHER -> "ok"

\* [st |-> "ok", n |-> tree], [st |-> "bad"] or [st |-> "?"]
Parse45(V, s) ==
  IF ContainsC(Chars(s), 65533) THEN [st |-> "?"]
  ELSE LET t == Lex45(V, s) IN
       IF t[Len(t)].k # "end" THEN [st |-> "bad"]
       ELSE LET r == Or45(V, t \o <<Tok("end", <<>>, 0, 0), Tok("end", <<>>, 0, 0), Tok("end", <<>>, 0, 0), Tok("end", <<>>, 0, 0)>>, 1)
            IN IF ~r.ok THEN [st |-> "bad"]
               ELSE IF t[r.i].k # "end" THEN [st |-> "bad"]
               ELSE LET d == Sound(V, r.n) IN IF d = "ok" THEN [st |-> "ok", n |-> r.n] ELSE [st |-> d]

\* --- a tree read out of the implementation (a list of nodes, as in Tree6)
RECURSIVE Node45(_, _, _)
Node45(n, T, i) ==
  LET t == T[i] IN
  CASE n.k = "ts" -> t.k = "date" /\ t.t = ParseLong(n.v).t
    [] n.k = "date" -> t.k = "date" /\ t.t = ParseShort(n.v).t
    [] t.k # n.k -> FALSE
    [] n.k = "num" -> LET x == Mag45(n.v) IN "nan" \notin DOMAIN t.f /\ t.f.neg = (n.v[1] = 45) /\ InInterval(x, t.f)
    [] n.k \in {"str", "ident"} -> t.v = n.v
    [] n.k = "bool" -> t.v = n.v
    [] n.k = "bin" -> t.op = n.op /\ Node45(n.l, T, t.l) /\ Node45(n.r, T, t.r)
    [] n.k = "un" -> t.op = n.op /\ Node45(n.r, T, t.r)
    [] n.k = "arr" -> Len(t.e) = Len(n.e) /\ \A j \in 1..Len(n.e) : Node45(n.e[j], T, t.e[j])
=============================================================================
