------------------------------ MODULE CheckDb6 ------------------------------
(* The rows e.arg.rows: what evaluation in memory says of each (e.mem) and   *)
(* which SQLite selected (e.hits) with the SQL of the same filter e.s.       *)
EXTENDS Eval6, TraceLoop

ColumnKind(v) == CASE v = Txt("n1") \/ v = Txt("n2") -> "num" [] v = Txt("s1") \/ v = Txt("s2") -> "str"
                   [] v = Txt("b1") \/ v = Txt("b2") -> "bool" [] v = Txt("d1") -> "day" [] v = Txt("m1") -> "moment"
                   [] OTHER -> "none"
\* a text that reads as a date is one in memory, not in the database
Both(a, b) == IF a = b THEN a ELSE "none"
RECURSIVE Kind(_), Kinds(_)
Kinds(e) == {Kind(e[i]) : i \in 1..Len(e)}
Kind(n) ==
  CASE n.k = "num" -> "num"
    [] n.k = "bool" -> "bool"
    [] n.k = "str" -> IF Lenient(n.v) \/ AnyTime(n.v).ok THEN "none" ELSE "str"
    [] n.k = "date" -> IF ParseShort(n.v).ok THEN "day" ELSE "none"
    [] n.k = "ts" -> IF ParseLong(n.v).ok THEN "moment" ELSE "none"
    [] n.k = "ident" -> ColumnKind(n.v)
    [] n.k = "un" -> (CASE n.op = "NOT" -> Both(Kind(n.r), "bool") [] n.op = "NEG" -> Both(Kind(n.r), "num") [] OTHER -> "none")
    [] n.k = "bin" ->
       (CASE n.op \in {"ADD", "SUB", "MUL", "DIV", "MOD"} -> Both(Both(Kind(n.l), Kind(n.r)), "num")
          [] n.op \in {"AND", "OR"} -> Both(Both(Kind(n.l), Kind(n.r)), "bool")
          [] n.op \in {"EQ", "NE"} -> IF Both(Kind(n.l), Kind(n.r)) # "none" THEN "bool" ELSE "none"
          [] n.op \in {"LT", "LE", "GT", "GE"} -> IF Both(Kind(n.l), Kind(n.r)) \in {"num", "day", "moment"} THEN "bool" ELSE "none"
          [] n.op \in {"LIKE", "REQ", "RNE"} -> IF Both(Kind(n.l), Kind(n.r)) = "str" THEN "bool" ELSE "none"
          [] n.op = "IS" -> IF Kind(n.l) # "none" THEN "bool" ELSE "none"
          [] n.op \in {"IN", "BETWEEN"} -> IF n.r.k = "arr" /\ Kind(n.l) # "none" /\ Kinds(n.r.e) \subseteq {Kind(n.l)} THEN "bool" ELSE "none"
          [] OTHER -> "none")
    [] OTHER -> "none"

JudgeDb(e) ==
  LET p == Parse(e.s) IN
  IF e.out = "noparse" THEN (IF p.ok THEN "a filter was refused" ELSE "skip")
  ELSE IF e.out = "panic" THEN "panic"
  ELSE IF Kind(p.n) # "bool" THEN "skip"
  ELSE LET v == TLCEval([i \in 1..Len(e.mem) |-> Eval(p.n, e.arg.rows[i])])
           sure(i) == v[i].t = "bool"
           hit(i) == \E j \in 1..Len(e.hits) : e.hits[j] = i
       IN IF \E i \in 1..Len(v) : v[i] = Err THEN "skip"
          ELSE IF e.out = "err" THEN "no SQL"
          ELSE IF e.out = "refused" THEN "the database refuses the SQL"
          ELSE IF \E i \in 1..Len(v) : e.mem[i] \in {"true", "false"} /\ hit(i) # (e.mem[i] = "true") THEN "database and memory differ"
          ELSE IF \E i \in 1..Len(v) : sure(i) /\ hit(i) # v[i].v THEN "another row set"
          ELSE IF \E i \in 1..Len(v) : sure(i) /\ e.mem[i] \notin {"true", "false"} THEN "no answer in memory"
          ELSE IF Len(e.hits) # Cardinality({e.hits[j] : j \in 1..Len(e.hits)}) THEN "a row twice"
          ELSE "ok"
=============================================================================
