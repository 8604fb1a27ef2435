-------------------------------- MODULE Sql ---------------------------------
(* Reads the text of an SQL condition with SQL's precedence: OR, AND, NOT,   *)
(* the comparisons (which do not associate), + and -, * / and %, unary minus.*)
(* Trees: ident(v), arg(i) (the i-th placeholder), num(v), bin(op, l, r),    *)
(* un(op, r), arr(e); BETWEEN and IN have an array on the right.             *)
EXTENDS Integers, Sequences, Lex6

SqlWords == <<"and", "or", "not", "like", "ilike", "in", "is", "null", "between", "regexp", "exists", "select">>
SqlWordTxt == [i \in 1..Len(SqlWords) |-> Txt(SqlWords[i])]
SqlWord(w) == LET l == Low(w)
                  is == {i \in 1..Len(SqlWords) : SqlWordTxt[i] = l}
              IN IF Len(w) > 7 \/ is = {} THEN "ident" ELSE SqlWords[CHOOSE i \in is : TRUE]
STok(k, v) == [k |-> k, v |-> v]
\* c, d: this and the next character of an operator
SqlOp(c, d) ==
  CASE c = 60 /\ d = 61 -> <<"LE", 2>>
    [] c = 60 /\ d = 62 -> <<"NE", 2>>
    [] c = 60 -> <<"LT", 1>>
    [] c = 62 /\ d = 61 -> <<"GE", 2>>
    [] c = 62 -> <<"GT", 1>>
    [] c = 33 /\ d = 61 -> <<"NE", 2>>
    [] c = 61 -> <<"EQ", 1>>
    [] c = 45 /\ d = 45 -> <<"bad", 2>>         \* a comment
    [] c = 47 /\ d = 42 -> <<"bad", 2>>
    [] c = 43 -> <<"ADD", 1>> [] c = 45 -> <<"SUB", 1>> [] c = 42 -> <<"MUL", 1>>
    [] c = 47 -> <<"DIV", 1>> [] c = 37 -> <<"MOD", 1>>
    [] c = 40 -> <<"(", 1>> [] c = 41 -> <<")", 1>> [] c = 44 -> <<",", 1>> [] c = 63 -> <<"?", 1>>
    [] OTHER -> <<"bad", 1>>
SqlNumEnd(s, i) == LET a == DigitsEnd(s, i)
                   IN ExpEnd(s, IF At(s, a) = 46 THEN DigitsEnd(s, a + 1) ELSE a)
\* the first quote from i on, which is not doubled
RECURSIVE SqlTextEnd(_, _)
SqlTextEnd(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 39 THEN (IF At(s, i + 1) = 39 THEN 0 ELSE i) ELSE SqlTextEnd(s, i + 1)
SqlLexStep(s, st, i) ==
  LET tok(k, v, e) == [i |-> e, out |-> Append(st.out, STok(k, v))] IN
  IF i < st.i THEN st
  ELSE IF IsSpaceC(s[i]) THEN [st EXCEPT !.i = i + 1]
  ELSE IF IdStart(s[i]) THEN LET e == IdEnd(s, i)
                                 w == SubSeq(s, i, e - 1)
                             IN tok(SqlWord(w), w, e)
  ELSE IF IsDigit(s[i]) THEN LET e == SqlNumEnd(s, i)
                             IN tok("num", SubSeq(s, i, e - 1), e)
  ELSE IF s[i] = 39 THEN LET e == SqlTextEnd(s, i + 1)
                         IN IF e = 0 THEN tok("bad", <<>>, i + 1) ELSE tok("text", SubSeq(s, i + 1, e - 1), e + 1)
  ELSE LET o == SqlOp(s[i], At(s, i + 1)) IN tok(o[1], <<>>, i + o[2])
SqlLex(s) == LET r == Fold(LAMBDA st, i : SqlLexStep(s, st, i), [i |-> 1, out |-> <<>>], [i \in 1..Len(s) |-> i])
             IN Append(r.out, STok("end", <<>>))

SGood(n, i, q) == [ok |-> TRUE, n |-> n, i |-> i, q |-> q]    \* q: placeholders read
SBad == [ok |-> FALSE]
SBin(op, l, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
SUn(op, r) == [k |-> "un", op |-> op, r |-> r]
SArr(e) == [k |-> "arr", e |-> e]
SNull == [k |-> "null"]
SqlCmp == {"EQ", "NE", "LT", "LE", "GT", "GE"}

RECURSIVE SOr(_, _, _), SOrRest(_, _), SAnd(_, _, _), SAndRest(_, _), SNot(_, _, _), SCmp(_, _, _), SAdd(_, _, _),
          SAddRest(_, _), SMul(_, _, _), SMulRest(_, _), SUnary(_, _, _), SList(_, _, _, _)
SOr(t, i, q) == SOrRest(t, SAnd(t, i, q))
SOrRest(t, r) == IF ~r.ok THEN r
                 ELSE IF t[r.i].k = "or"
                   THEN LET x == SAnd(t, r.i + 1, r.q)
                        IN IF x.ok THEN SOrRest(t, SGood(SBin("OR", r.n, x.n), x.i, x.q)) ELSE x
                 ELSE r
SAnd(t, i, q) == SAndRest(t, SNot(t, i, q))
SAndRest(t, r) == IF ~r.ok THEN r
                  ELSE IF t[r.i].k = "and"
                    THEN LET x == SNot(t, r.i + 1, r.q)
                         IN IF x.ok THEN SAndRest(t, SGood(SBin("AND", r.n, x.n), x.i, x.q)) ELSE x
                  ELSE r
SNot(t, i, q) == IF t[i].k = "not"
                 THEN LET x == SNot(t, i + 1, q) IN IF x.ok THEN SGood(SUn("NOT", x.n), x.i, x.q) ELSE x
                 ELSE SCmp(t, i, q)
\* one comparison at most: two in a row mean different things to different databases
SRange(t, i, q) == LET lo == SAdd(t, i, q)
                   IN IF ~lo.ok THEN lo
                      ELSE IF t[lo.i].k # "and" THEN SBad
                      ELSE LET hi == SAdd(t, lo.i + 1, lo.q)
                           IN IF ~hi.ok THEN hi ELSE SGood(SArr(<<lo.n, hi.n>>), hi.i, hi.q)
SPred(t, l, neg) == \* the predicate after l, an optional NOT already passed
  LET k == t[l.i].k
      w(x, n) == IF ~x.ok THEN x ELSE SGood(IF neg THEN SUn("NOT", n) ELSE n, x.i, x.q)
  IN CASE k = "like" -> LET x == SAdd(t, l.i + 1, l.q) IN IF x.ok THEN w(x, SBin("LIKE", l.n, x.n)) ELSE x
       [] k = "ilike" -> LET x == SAdd(t, l.i + 1, l.q) IN IF x.ok THEN w(x, SBin("ILIKE", l.n, x.n)) ELSE x
       [] k = "regexp" -> LET x == SAdd(t, l.i + 1, l.q) IN IF x.ok THEN w(x, SBin("REQ", l.n, x.n)) ELSE x
       [] k = "between" -> LET x == SRange(t, l.i + 1, l.q) IN IF x.ok THEN w(x, SBin("BETWEEN", l.n, x.n)) ELSE x
       [] k = "in" -> IF t[l.i + 1].k # "(" THEN SBad
                      ELSE LET x == SList(t, l.i + 2, l.q, <<>>) IN IF x.ok THEN w(x, SBin("IN", l.n, x.n)) ELSE x
       [] OTHER -> SBad
SCmp(t, i, q) ==
  LET l == SAdd(t, i, q) IN
  IF ~l.ok THEN l
  ELSE LET k == t[l.i].k IN
    CASE k \in SqlCmp -> LET x == SAdd(t, l.i + 1, l.q) IN IF x.ok THEN SGood(SBin(k, l.n, x.n), x.i, x.q) ELSE x
      [] k = "is" -> IF t[l.i + 1].k = "null" THEN SGood(SBin("IS", l.n, SNull), l.i + 2, l.q)
                     ELSE IF t[l.i + 1].k = "not" /\ t[l.i + 2].k = "null"
                       THEN SGood(SUn("NOT", SBin("IS", l.n, SNull)), l.i + 3, l.q)
                     ELSE SBad
      [] k = "not" -> SPred(t, [l EXCEPT !.i = l.i + 1], TRUE)
      [] k \in {"like", "ilike", "regexp", "between", "in"} -> SPred(t, l, FALSE)
      [] OTHER -> l
SAdd(t, i, q) == SAddRest(t, SMul(t, i, q))
SAddRest(t, r) == IF ~r.ok THEN r
                  ELSE IF t[r.i].k \in {"ADD", "SUB"}
                    THEN LET x == SMul(t, r.i + 1, r.q)
                         IN IF x.ok THEN SAddRest(t, SGood(SBin(t[r.i].k, r.n, x.n), x.i, x.q)) ELSE x
                  ELSE r
SMul(t, i, q) == SMulRest(t, SUnary(t, i, q))
SMulRest(t, r) == IF ~r.ok THEN r
                  ELSE IF t[r.i].k \in {"MUL", "DIV", "MOD"}
                    THEN LET x == SUnary(t, r.i + 1, r.q)
                         IN IF x.ok THEN SMulRest(t, SGood(SBin(t[r.i].k, r.n, x.n), x.i, x.q)) ELSE x
                  ELSE r
SUnary(t, i, q) ==
  LET k == t[i].k IN
  CASE k = "SUB" -> LET x == SUnary(t, i + 1, q) IN IF x.ok THEN SGood(SUn("NEG", x.n), x.i, x.q) ELSE x
    [] k = "(" -> LET x == SOr(t, i + 1, q)
                  IN IF ~x.ok THEN x ELSE IF t[x.i].k = ")" THEN SGood(x.n, x.i + 1, x.q) ELSE SBad
    [] k = "?" -> SGood([k |-> "arg", i |-> q + 1], i + 1, q + 1)
    [] k = "ident" -> SGood([k |-> "ident", v |-> t[i].v], i + 1, q)
    [] k = "num" -> SGood([k |-> "sqlnum", v |-> t[i].v], i + 1, q)
    [] k = "null" -> SGood(SNull, i + 1, q)
    [] k = "text" -> SGood([k |-> "sqltext", v |-> t[i].v], i + 1, q)
    [] OTHER -> SBad
SList(t, i, q, acc) ==
  LET x == SOr(t, i, q) IN
  IF ~x.ok THEN x
  ELSE LET e == Append(acc, x.n) IN
       CASE t[x.i].k = ")" -> SGood(SArr(e), x.i + 1, x.q)
         [] t[x.i].k = "," -> SList(t, x.i + 1, x.q, e)
         [] OTHER -> SBad
\* [ok, n, q]
SqlParse(s) == LET t == SqlLex(s)
                   x == SOr(t, 1, 0)
               IN IF x.ok /\ t[x.i].k # "end" THEN SBad ELSE x

\* YYYY-MM-DD hh:mm:ss[.f] is read as UTC, other texts as dates are
SqlTime(s) == IF Len(s) >= 19 /\ s[11] = 32
              THEN ParseLong([i \in 1..(Len(s) + 1) |-> IF i = 11 THEN 84 ELSE IF i = Len(s) + 1 THEN 90 ELSE s[i]])
              ELSE AnyTime(s)
=============================================================================
