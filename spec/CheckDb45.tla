----------------------------- MODULE CheckDb45 ------------------------------
(* The rows e.arg.rows: what evaluation in memory says of each (e.mem) and   *)
(* which SQLite selected (e.hits) with the SQL of the same filter e.s.       *)
EXTENDS Eval45, TraceLoop

Columns == {Txt("n"), Txt("m"), Txt("k"), Txt("s"), Txt("t"), Txt("u"), Txt("b"), Txt("c"), Txt("d"), Txt("e"), Txt("z")}
Booleans == {Txt("b"), Txt("c")}
IsBoolean(n) == n.k = "bool" \/ (n.k = "ident" /\ n.v \in Booleans)
\* SQLite divides whole numbers as whole numbers
RECURSIVE HasColumn(_)
HasColumn(n) == CASE n.k = "ident" -> TRUE [] n.k = "bin" -> HasColumn(n.l) \/ HasColumn(n.r) [] OTHER -> FALSE
\* dates in whole seconds of UTC, which sort as their texts do
Sorts(n) == n.k = "ts" => Len(n.v) = 20 /\ n.v[20] = 90
\* nothing SQLite understands differently
RECURSIVE Alike(_), Divides(_), Negates(_)
Alike(n) ==
  CASE n.k = "bin" ->
        /\ n.op \notin {"REQ", "RNE", "ILIKE", "MOD"}
        /\ Alike(n.l)
        /\ Alike(n.r)
        /\ n.op = "DIV" => HasColumn(n.l) \/ HasColumn(n.r)
        /\ IsBoolean(n.l) \/ IsBoolean(n.r) => n.op \in {"EQ", "NE"} /\ IsBoolean(n.l) /\ IsBoolean(n.r)
        /\ MathOp(n.op) => n.l.k \in {"num", "ident", "bin"} /\ n.r.k \in {"num", "ident", "bin"}
    [] n.k = "un" -> Alike(n.r)
    [] n.k = "arr" -> \A i \in 1..Len(n.e) : Sorts(n.e[i])
    [] OTHER -> Sorts(n)
Divides(n) == CASE n.k = "bin" -> n.op = "DIV" \/ Divides(n.l) \/ Divides(n.r) [] n.k = "un" -> Divides(n.r) [] OTHER -> FALSE
\* true for some rows without values in memory, or in the database
Negates(n) == CASE n.k = "bin" -> (n.op = "NOT IN" /\ n.r.e = <<>>) \/ Negates(n.l) \/ Negates(n.r)
                [] n.k = "un" -> n.op = "NOT" \/ Negates(n.r)
                [] OTHER -> FALSE
Lacks(rec, names) == \E v \in names : Lookup(rec, v, 1).t = "null"

JudgeDb45(e) ==
  LET V == e.arg.ver
      p == Parse45(V, e.s)
  IN
  IF e.out = "noparse" THEN (IF p.st = "ok" THEN "a filter is rejected" ELSE "skip")
  ELSE IF e.out = "panic" THEN "panic"
  ELSE IF p.st # "ok" THEN "skip"
  ELSE LET names == Names(p.n)
           sane == names \subseteq Columns /\ (V = 4 => names \cap (Booleans \cup {Txt("d"), Txt("e")}) = {})
       IN
       IF ~sane \/ ~Alike(p.n) THEN "skip"
       ELSE LET v == TLCEval([i \in 1..Len(e.mem) |->
                        IF Lacks(e.arg.rows[i], names) /\ Negates(p.n) THEN Vague ELSE Eval45(V, p.n, e.arg.rows[i])])
                lacks(i) == Lacks(e.arg.rows[i], names) /\ (Negates(p.n) \/ Divides(p.n))
                sure(i) == v[i].t = "bool"
                hit(i) == \E j \in 1..Len(e.hits) : e.hits[j] = i
            IN IF \E i \in 1..Len(v) : v[i] = Err THEN "skip"
               ELSE IF e.out = "err" THEN "no SQL"
               ELSE IF e.out = "refused" THEN "the database refuses the SQL"
               ELSE IF \E i \in 1..Len(v) : ~lacks(i) /\ ~Divides(p.n) /\ e.mem[i] \in {"true", "false"} /\ hit(i) # (e.mem[i] = "true")
                 THEN "database and memory differ"
               ELSE IF \E i \in 1..Len(v) : sure(i) /\ hit(i) # v[i].v THEN "another row set"
               ELSE IF \E i \in 1..Len(v) : sure(i) /\ e.mem[i] \notin {"true", "false"} THEN "no answer in memory"
               ELSE IF Len(e.hits) # Cardinality({e.hits[j] : j \in 1..Len(e.hits)}) THEN "a row twice"
               ELSE "ok"
=============================================================================
