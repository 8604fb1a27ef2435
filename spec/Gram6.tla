------------------------------- MODULE Gram6 --------------------------------
(* The v6 grammar as a deterministic reader of token sequences.              *)
(* Trees: [k |-> "num"|"str"|"ident"|"date"|"ts", v |-> text],               *)
(* [k |-> "bool", v |-> BOOLEAN], [k |-> "null"],                            *)
(* [k |-> "bin", op, l, r], [k |-> "un", op, r], [k |-> "arr", e].           *)
EXTENDS Integers, Sequences, Lex6

Bin(op, l, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
Un(op, r) == [k |-> "un", op |-> op, r |-> r]
Arr(e) == [k |-> "arr", e |-> e]
Null == [k |-> "null"]

Good(n, i) == [ok |-> TRUE, n |-> n, i |-> i]
Bad(i) == [ok |-> FALSE, i |-> i]        \* i: the offending token

CmpOps == {"EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE"}
ListOp(k) == CASE k = "like" -> "LIKE" [] k = "ilike" -> "ILIKE" [] k = "in" -> "IN"
PreOps == {"not", "len", "any", "all", "sum"}
PreOp(k) == CASE k = "not" -> "NOT" [] k = "len" -> "LEN" [] k = "any" -> "ANY"
              [] k = "all" -> "ALL" [] k = "sum" -> "SUM"
AddOp(k) == IF k = "+" THEN "ADD" ELSE "SUB"
MulOp(k) == CASE k = "*" -> "MUL" [] k = "/" -> "DIV" [] k = "%" -> "MOD"

RECURSIVE OrE(_, _), AndE(_, _), CmpE(_, _), AddE(_, _), MulE(_, _), NotE(_, _), UnE(_, _),
          OrRest(_, _), AndRest(_, _), CmpRest(_, _), AddRest(_, _), MulRest(_, _), ArrE(_, _, _)

OrE(t, i) == OrRest(t, AndE(t, i))
OrRest(t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k = "or"
    THEN LET q == AndE(t, r.i + 1)
         IN IF q.ok THEN OrRest(t, Good(Bin("OR", r.n, q.n), q.i)) ELSE q
  ELSE r

AndE(t, i) == AndRest(t, CmpE(t, i))
AndRest(t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k = "and"
    THEN LET q == CmpE(t, r.i + 1)
         IN IF q.ok THEN AndRest(t, Good(Bin("AND", r.n, q.n), q.i)) ELSE q
  ELSE r

CmpE(t, i) == CmpRest(t, AddE(t, i))
\* low AND high, beginning at i
Range(t, i) == LET lo == AddE(t, i)
               IN IF ~lo.ok THEN lo
                  ELSE IF t[lo.i].k # "and" THEN Bad(lo.i)
                  ELSE LET hi == AddE(t, lo.i + 1)
                       IN IF ~hi.ok THEN hi ELSE Good(Arr(<<lo.n, hi.n>>), hi.i)
CmpRest(t, r) ==
  IF ~r.ok THEN r
  ELSE LET k == t[r.i].k IN
  IF k \in CmpOps THEN
    LET q == AddE(t, r.i + 1) IN IF q.ok THEN CmpRest(t, Good(Bin(k, r.n, q.n), q.i)) ELSE q
  ELSE IF k \in {"like", "ilike", "in"} THEN
    LET q == AddE(t, r.i + 1) IN IF q.ok THEN CmpRest(t, Good(Bin(ListOp(k), r.n, q.n), q.i)) ELSE q
  ELSE IF k = "between" THEN
    LET q == Range(t, r.i + 1) IN IF q.ok THEN CmpRest(t, Good(Bin("BETWEEN", r.n, q.n), q.i)) ELSE q
  ELSE IF k = "is" THEN
    IF t[r.i + 1].k = "null" THEN CmpRest(t, Good(Bin("IS", r.n, Null), r.i + 2))
    ELSE IF t[r.i + 1].k # "not" THEN Bad(r.i + 1)
    ELSE IF t[r.i + 2].k # "null" THEN Bad(r.i + 2)
    ELSE CmpRest(t, Good(Un("NOT", Bin("IS", r.n, Null)), r.i + 3))
  ELSE IF k = "not" THEN
    LET k2 == t[r.i + 1].k IN
    IF k2 \in {"like", "ilike", "in"} THEN
      LET q == AddE(t, r.i + 2)
      IN IF q.ok THEN CmpRest(t, Good(Un("NOT", Bin(ListOp(k2), r.n, q.n)), q.i)) ELSE q
    ELSE IF k2 = "between" THEN
      LET q == Range(t, r.i + 2)
      IN IF q.ok THEN CmpRest(t, Good(Un("NOT", Bin("BETWEEN", r.n, q.n)), q.i)) ELSE q
    ELSE Bad(r.i + 1)
  ELSE r

AddE(t, i) == AddRest(t, MulE(t, i))
AddRest(t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k \in {"+", "-"}
    THEN LET q == MulE(t, r.i + 1)
         IN IF q.ok THEN AddRest(t, Good(Bin(AddOp(t[r.i].k), r.n, q.n), q.i)) ELSE q
  ELSE r

MulE(t, i) == MulRest(t, NotE(t, i))
MulRest(t, r) ==
  IF ~r.ok THEN r
  ELSE IF t[r.i].k \in {"*", "/", "%"}
    THEN LET q == NotE(t, r.i + 1)
         IN IF q.ok THEN MulRest(t, Good(Bin(MulOp(t[r.i].k), r.n, q.n), q.i)) ELSE q
  ELSE r

NotE(t, i) == IF t[i].k \in PreOps
              THEN LET q == NotE(t, i + 1) IN IF q.ok THEN Good(Un(PreOp(t[i].k), q.n), q.i) ELSE q
              ELSE UnE(t, i)

UnE(t, i) ==
  LET k == t[i].k IN
  CASE k = "-" -> LET q == UnE(t, i + 1) IN IF q.ok THEN Good(Un("NEG", q.n), q.i) ELSE q
    [] k = "+" -> UnE(t, i + 1)
    [] k = "(" -> LET q == OrE(t, i + 1)
                  IN IF ~q.ok THEN q ELSE IF t[q.i].k = ")" THEN Good(q.n, q.i + 1) ELSE Bad(q.i)
    [] k = "[" -> IF t[i + 1].k = "]" THEN Good(Arr(<<>>), i + 2) ELSE ArrE(t, i + 1, <<>>)
    [] k = "true" -> Good([k |-> "bool", v |-> TRUE], i + 1)
    [] k = "false" -> Good([k |-> "bool", v |-> FALSE], i + 1)
    [] k \in {"num", "str", "ident", "date", "ts"} -> Good([k |-> k, v |-> t[i].v], i + 1)
    [] OTHER -> Bad(i)
\* elements from token i on; a comma may follow the last one
ArrE(t, i, acc) ==
  LET q == OrE(t, i) IN
  IF ~q.ok THEN q
  ELSE LET e == Append(acc, q.n) IN
       CASE t[q.i].k = "]" -> Good(Arr(e), q.i + 1)
         [] t[q.i].k = "," -> IF t[q.i + 1].k = "]" THEN Good(Arr(e), q.i + 2) ELSE ArrE(t, q.i + 1, e)
         [] OTHER -> Bad(q.i)

ParseTokens(t) == LET r == OrE(t, 1)
                  IN IF r.ok /\ t[r.i].k # "end" THEN Bad(r.i) ELSE r
\* the meaning of a text: [ok, n] or [ok |-> FALSE, i |-> offending token]
Parse(s) == IF ContainsC(s, 0) THEN Bad(0) ELSE ParseTokens(Lex(s))

\* the names a filter uses
RECURSIVE Names(_)
Names(n) == CASE n.k = "ident" -> {n.v}
              [] n.k = "bin" -> Names(n.l) \cup Names(n.r)
              [] n.k = "un" -> Names(n.r)
              [] n.k = "arr" -> UNION {Names(n.e[i]) : i \in 1..Len(n.e)}
              [] OTHER -> {}
=============================================================================
