------------------------------- MODULE Regex --------------------------------
(* Regular expressions (the common core of the RE2 syntax): reading and      *)
(* matching.  Nodes: [k |-> "chr", c], [k |-> "any"], [k |-> "set", neg, r]   *)
(* (r: set of <<low, high>>), [k |-> "cat", s], [k |-> "alt", s],             *)
(* [k |-> "rep", n, lo, hi] (hi -1: no bound), [k |-> "bol"|"eol"|"word"|     *)
(* "nword"].  A reader's answer has st "ok" (n, i), "bad" (not a regular      *)
(* expression) or "odd" (not in the core: not decided).                      *)
EXTENDS Integers, Sequences, FiniteSets, Text

RGood(n, i) == [st |-> "ok", n |-> n, i |-> i]
RBad == [st |-> "bad"]
ROdd == [st |-> "odd"]
DigitR == {<<48, 57>>}
WordR == {<<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>}
SpaceR == {<<9, 10>>, <<12, 13>>, <<32, 32>>}
SetN(neg, r) == [k |-> "set", neg |-> neg, r |-> r]
IsWordC(c) == IsLetter(c) \/ IsDigit(c) \/ c = 95

\* a counted repetition {n}, {n,} or {n,m} at i: [ok, lo, hi, i]
Counted(p, i) ==
  IF At(p, i) # 123 THEN [ok |-> FALSE]
  ELSE LET a == DigitsEnd(p, i + 1)
           c == At(p, a) = 44
           b == IF c THEN DigitsEnd(p, a + 1) ELSE a
       IN IF a = i + 1 \/ At(p, b) # 125 \/ b - i > 9 THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, lo |-> Num(p, i + 1, a - 1), i |-> b + 1,
                hi |-> IF ~c THEN Num(p, i + 1, a - 1) ELSE IF b = a + 1 THEN -1 ELSE Num(p, a + 1, b - 1)]
IsQuant(p, i) == At(p, i) \in {42, 43, 63} \/ Counted(p, i).ok

\* one item of a character class at i: [st, r, i] or a single character [st, c, i]
ClassEsc(p, i) == \* p[i] = \
  LET c == At(p, i + 1) IN
  CASE c = 100 -> [st |-> "set", r |-> DigitR, i |-> i + 2]
    [] c = 119 -> [st |-> "set", r |-> WordR, i |-> i + 2]
    [] c = 115 -> [st |-> "set", r |-> SpaceR, i |-> i + 2]
    [] c = 110 -> [st |-> "chr", c |-> 10, i |-> i + 2]
    [] c = 116 -> [st |-> "chr", c |-> 9, i |-> i + 2]
    [] c = -1 -> RBad
    [] c < 128 /\ ~IsLetter(c) /\ ~IsDigit(c) -> [st |-> "chr", c |-> c, i |-> i + 2]
    [] OTHER -> ROdd
RECURSIVE Class(_, _, _, _, _)
Class(p, i, first, neg, acc) ==
  LET c == At(p, i) IN
  IF c = -1 THEN RBad
  ELSE IF c = 93 /\ ~first THEN RGood(SetN(neg, acc), i + 1)
  ELSE IF c = 91 /\ At(p, i + 1) = 58 THEN ROdd
  ELSE LET x == IF c = 92 THEN ClassEsc(p, i) ELSE [st |-> "chr", c |-> c, i |-> i + 1]
       IN CASE x.st \in {"bad", "odd"} -> x
            [] x.st = "set" -> IF At(p, x.i) = 45 /\ At(p, x.i + 1) # 93 THEN ROdd
                               ELSE Class(p, x.i, FALSE, neg, acc \cup x.r)
            [] OTHER ->
               IF c = 45 /\ ~first /\ At(p, i + 1) # 93 THEN ROdd
               ELSE IF At(p, x.i) = 45 /\ At(p, x.i + 1) \notin {93, -1}
               THEN LET y == IF At(p, x.i + 1) = 92 THEN ClassEsc(p, x.i + 1)
                             ELSE [st |-> "chr", c |-> At(p, x.i + 1), i |-> x.i + 2]
                    IN IF y.st = "set" THEN ROdd
                       ELSE IF y.st # "chr" THEN y
                       ELSE IF y.c < x.c THEN RBad
                       ELSE Class(p, y.i, FALSE, neg, acc \cup {<<x.c, y.c>>})
               ELSE Class(p, x.i, FALSE, neg, acc \cup {<<x.c, x.c>>})

RECURSIVE RAlt(_, _, _), RSeq(_, _, _), RAtom(_, _)
\* alternatives from i up to ")" or the end
RAlt(p, i, acc) ==
  LET s == RSeq(p, i, <<>>) IN
  IF s.st # "ok" THEN s
  ELSE LET a == Append(acc, s.n) IN
       IF At(p, s.i) = 124 THEN RAlt(p, s.i + 1, a)
       ELSE RGood([k |-> "alt", s |-> a], s.i)
RSeq(p, i, acc) ==
  LET c == At(p, i) IN
  IF c \in {-1, 41, 124} THEN RGood([k |-> "cat", s |-> acc], i)
  ELSE IF IsQuant(p, i) THEN RBad
  ELSE LET a == RAtom(p, i) IN
       IF a.st # "ok" THEN a
       ELSE IF ~IsQuant(p, a.i) THEN RSeq(p, a.i, Append(acc, a.n))
       ELSE LET q == Counted(p, a.i)
                k == At(p, a.i)
                lo == IF q.ok THEN q.lo ELSE IF k = 43 THEN 1 ELSE 0
                hi == IF q.ok THEN q.hi ELSE IF k = 63 THEN 1 ELSE -1
                e == IF q.ok THEN q.i ELSE a.i + 1
                z == IF At(p, e) = 63 THEN e + 1 ELSE e       \* a lazy one matches alike
            IN IF q.ok /\ (q.lo > 1000 \/ q.hi > 1000 \/ (q.hi >= 0 /\ q.lo > q.hi)) THEN RBad
               ELSE IF q.ok /\ (q.lo > 20 \/ q.hi > 20) THEN ROdd
               ELSE IF IsQuant(p, z) THEN RBad
               ELSE RSeq(p, z, Append(acc, [k |-> "rep", n |-> a.n, lo |-> lo, hi |-> hi]))
RAtom(p, i) ==
  LET c == p[i] IN
  CASE c = 46 -> RGood([k |-> "any"], i + 1)
    [] c = 94 -> RGood([k |-> "bol"], i + 1)
    [] c = 36 -> RGood([k |-> "eol"], i + 1)
    [] c = 91 -> LET neg == At(p, i + 1) = 94
                 IN Class(p, IF neg THEN i + 2 ELSE i + 1, TRUE, neg, {})
    [] c = 40 -> IF At(p, i + 1) = 63 /\ At(p, i + 2) # 58 THEN ROdd
                 ELSE LET a == RAlt(p, IF At(p, i + 1) = 63 THEN i + 3 ELSE i + 1, <<>>)
                      IN IF a.st # "ok" THEN a
                         ELSE IF At(p, a.i) = 41 THEN RGood(a.n, a.i + 1) ELSE RBad
    [] c = 92 -> LET d == At(p, i + 1) IN
         (CASE d = -1 -> RBad
            [] d = 100 -> RGood(SetN(FALSE, DigitR), i + 2)
            [] d = 119 -> RGood(SetN(FALSE, WordR), i + 2)
            [] d = 115 -> RGood(SetN(FALSE, SpaceR), i + 2)
            [] d = 68 -> RGood(SetN(TRUE, DigitR), i + 2)
            [] d = 87 -> RGood(SetN(TRUE, WordR), i + 2)
            [] d = 83 -> RGood(SetN(TRUE, SpaceR), i + 2)
            [] d = 98 -> RGood([k |-> "word"], i + 2)
            [] d = 66 -> RGood([k |-> "nword"], i + 2)
            [] d = 65 -> RGood([k |-> "bol"], i + 2)
            [] d = 122 -> RGood([k |-> "eol"], i + 2)
            [] d = 110 -> RGood([k |-> "chr", c |-> 10], i + 2)
            [] d = 116 -> RGood([k |-> "chr", c |-> 9], i + 2)
            [] d < 128 /\ ~IsLetter(d) /\ ~IsDigit(d) -> RGood([k |-> "chr", c |-> d], i + 2)
            [] OTHER -> ROdd)
    [] OTHER -> RGood([k |-> "chr", c |-> c], i + 1)

\* something odd anywhere makes an error elsewhere undecided too
RParse(p) == LET a == RAlt(p, 1, <<>>)
             IN IF a.st # "ok" THEN a
                ELSE IF a.i <= Len(p) THEN RBad          \* an unmatched )
                ELSE a

InSet(n, c) == (\E r \in n.r : c >= r[1] /\ c <= r[2]) # n.neg
Boundary(t, i) == \* between characters i and i + 1
  (i >= 1 /\ IsWordC(t[i])) # (i < Len(t) /\ IsWordC(t[i + 1]))
\* the positions (0..Len(t)) at which a match of n that starts in S can end
RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), Times(_, _, _, _), Star(_, _, _)
Ends(n, t, S) ==
  CASE n.k = "chr" -> {i + 1 : i \in {j \in S : j < Len(t) /\ t[j + 1] = n.c}}
    [] n.k = "any" -> {i + 1 : i \in {j \in S : j < Len(t) /\ t[j + 1] # 10}}
    [] n.k = "set" -> {i + 1 : i \in {j \in S : j < Len(t) /\ InSet(n, t[j + 1])}}
    [] n.k = "bol" -> S \cap {0}
    [] n.k = "eol" -> S \cap {Len(t)}
    [] n.k = "word" -> {i \in S : Boundary(t, i)}
    [] n.k = "nword" -> {i \in S : ~Boundary(t, i)}
    [] n.k = "cat" -> CatEnds(n.s, 1, t, S)
    [] n.k = "alt" -> UNION {Ends(n.s[j], t, S) : j \in 1..Len(n.s)}
    [] n.k = "rep" -> LET B == Times(n.n, t, S, n.lo)
                      IN IF n.hi < 0 THEN Star(n.n, t, B)
                         ELSE UNION {Times(n.n, t, B, j) : j \in 0..(n.hi - n.lo)}
CatEnds(s, j, t, S) == IF j > Len(s) THEN S ELSE CatEnds(s, j + 1, t, Ends(s[j], t, S))
Times(n, t, S, k) == IF k = 0 THEN S ELSE Times(n, t, Ends(n, t, S), k - 1)
Star(n, t, S) == LET R == S \cup Ends(n, t, S) IN IF R = S THEN S ELSE Star(n, t, R)
Search(n, t) == Ends(n, t, 0..Len(t)) # {}
=============================================================================
