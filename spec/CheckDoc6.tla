------------------------------ MODULE CheckDoc6 -----------------------------
(* The JSON and YAML documents of the filter e.s, read back.                 *)
EXTENDS Tree6, TraceLoop

\* texts that are not UTF-8 have no document
RECURSIVE Plain(_)
Plain(n) ==
  CASE n.k \in {"str", "ident", "date", "ts"} -> ~\E i \in 1..Len(Chars(n.v)) : Chars(n.v)[i] = 65533
    [] n.k = "bin" -> Plain(n.l) /\ Plain(n.r)
    [] n.k = "un" -> Plain(n.r)
    [] n.k = "arr" -> \A i \in 1..Len(n.e) : Plain(n.e[i])
    [] OTHER -> TRUE
\* a number literal beyond every double
RECURSIVE Big(_)
Big(n) ==
  CASE n.k = "num" -> LET a == Sign(n.v, 1)
                          z == Len(n.v)
                          b == IF z > 1 /\ LowC(n.v[z]) = 105 THEN z - 2 ELSE IF IsLetter(n.v[z]) THEN z - 1 ELSE z
                      IN Magnitude(n.v, a, b).e > 280
    [] n.k = "bin" -> Big(n.l) \/ Big(n.r)
    [] n.k = "un" -> Big(n.r)
    [] n.k = "arr" -> \E i \in 1..Len(n.e) : Big(n.e[i])
    [] OTHER -> FALSE
RECURSIVE LenientDate(_)
LenientDate(n) ==
  CASE n.k \in {"date", "ts"} -> Lenient(n.v) \/ (Len(n.v) > 6 /\ SubSeq(n.v, Len(n.v) - 4, Len(n.v) - 3) = <<50, 52>>)   \* zone 24
    [] n.k = "bin" -> LenientDate(n.l) \/ LenientDate(n.r)
    [] n.k = "un" -> LenientDate(n.r)
    [] n.k = "arr" -> \E i \in 1..Len(n.e) : LenientDate(n.e[i])
    [] OTHER -> FALSE

\* e: the documents of the tree n
DocOn(n, e) ==
  IF e.out # "value" THEN "outcome " \o e.out
  ELSE IF ~e.same THEN "the tree was changed"
  ELSE IF ~Plain(n) \/ Big(n) \/ LenientDate(n) THEN "skip"
  ELSE IF "json" \notin DOMAIN e THEN "no JSON"
  ELSE IF "yaml" \notin DOMAIN e THEN "no YAML"
  ELSE IF ~TreeMatch(n, e.json) THEN "JSON of another tree"
  ELSE IF ~TreeMatch(n, e.yaml) THEN "YAML of another tree"
  ELSE "ok"
JudgeDoc(e) ==
  LET p == Parse(e.s) IN
  IF e.out = "noparse" THEN (IF p.ok THEN "a filter was refused" ELSE "skip")
  ELSE IF ~p.ok THEN "not a filter"
  ELSE DocOn(p.n, e)
=============================================================================
