----------------------------- MODULE CheckSql6 ------------------------------
(* The SQL made of a v6 filter: text e.sql, arguments e.args.                *)
EXTENDS Eval6, Tree6, Sql, TraceLoop

\* filters SQL has a counterpart for
RECURSIVE HasSql(_)
HasSql(n) ==
  CASE n.k = "arr" -> FALSE
    [] n.k = "bin" -> /\ HasSql(n.l)
                      /\ IF n.op \in {"IN", "BETWEEN"}
                         THEN n.r.k = "arr" /\ (n.op = "BETWEEN" => Len(n.r.e) = 2) /\ \A i \in 1..Len(n.r.e) : HasSql(n.r.e[i])
                         ELSE HasSql(n.r)
    [] n.k = "un" -> n.op \in {"NOT", "NEG"} /\ HasSql(n.r)
    [] OTHER -> TRUE

IsLit(n) == n.k \in {"num", "str", "date", "ts", "bool"}
\* a condition that is never true
Never(q) == q.k = "bin" /\ q.op = "EQ" /\ q.l.k = "sqlnum" /\ q.r.k = "sqlnum" /\ q.l.v # q.r.v

\* the operands of a chain of ANDs (or ORs), however it is grouped
RECURSIVE Chain(_, _)
Chain(n, op) == IF n.k = "bin" /\ n.op = op THEN Chain(n.l, op) \o Chain(n.r, op) ELSE <<n>>

\* --- the same filter: n of the language, q of SQL (values aside)
RECURSIVE SameSql(_, _)
SameSql(n, q) ==
  CASE IsLit(n) -> q.k = "arg"
    [] n.k = "ident" -> q.k = "ident" /\ q.v = n.v
    [] n.k = "null" -> q.k = "null"
    [] n.k = "un" -> q.k = "un" /\ q.op = n.op /\ SameSql(n.r, q.r)
    [] n.k = "arr" -> q.k = "arr" /\ Len(q.e) = Len(n.e) /\ \A i \in 1..Len(n.e) : SameSql(n.e[i], q.e[i])
    [] n.k = "bin" ->
        CASE n.op = "IN" /\ n.r.e = <<>> -> Never(q)
          [] n.op = "RNE" -> q.k = "un" /\ q.op = "NOT" /\ q.r.k = "bin" /\ q.r.op = "REQ"
                             /\ SameSql(n.l, q.r.l) /\ SameSql(n.r, q.r.r)
          [] n.op \in {"AND", "OR"} ->
               LET a == Chain(n, n.op)
                   b == Chain(q, n.op)
               IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameSql(a[i], b[i])
          [] OTHER -> q.k = "bin" /\ q.op = n.op /\ SameSql(n.l, q.l) /\ SameSql(n.r, q.r)

\* e: the SQL made of the tree n
ShapeOn(n, e) ==
  IF e.out \notin {"value", "err"} THEN "outcome " \o e.out
  ELSE IF ~HasSql(n) THEN (IF e.out = "err" THEN "ok" ELSE "SQL for a filter that has none")
    ELSE IF e.out = "err" THEN "no SQL for a filter that has it"
    ELSE LET q == SqlParse(e.sql)
         IN IF ~q.ok THEN "not an SQL condition"
            ELSE IF q.q # Len(e.args) THEN "another number of arguments than placeholders"
            ELSE IF SameSql(n, q.n) THEN "ok" ELSE "another condition"
JudgeSqlShape(e) ==
  IF e.out = "noparse" THEN (IF Parse(e.s).ok THEN "a filter was refused" ELSE "skip")
  ELSE LET p == Parse(e.s) IN IF ~p.ok THEN "not a filter" ELSE ShapeOn(p.n, e)

\* --- values: the literals from left to right; w: with those left of an empty IN
RECURSIVE Lits(_, _), LitsAll(_, _, _)
Lits(n, w) == CASE IsLit(n) -> <<n>>
                [] n.k = "bin" -> IF n.op = "IN" /\ n.r.k = "arr" /\ n.r.e = <<>> /\ ~w THEN <<>>
                                  ELSE Lits(n.l, w) \o Lits(n.r, w)
                [] n.k = "un" -> Lits(n.r, w)
                [] n.k = "arr" -> LitsAll(n.e, 1, w)
                [] OTHER -> <<>>
LitsAll(e, i, w) == IF i > Len(e) THEN <<>> ELSE Lits(e[i], w) \o LitsAll(e, i + 1, w)
ArgIs(n, a) ==
  CASE n.k = "num" -> a.t = "num" /\ NumMatch(n.v, a.f)
    [] n.k = "str" -> a.t = "str" /\ a.v = n.v
    [] n.k = "bool" -> \/ a.t = "bool" /\ a.v = n.v
                       \/ a.t = "num" /\ ~a.neg /\ [d |-> a.d, e |-> a.e] = (IF n.v THEN [d |-> <<1>>, e |-> 1] ELSE [d |-> <<>>, e |-> 0])
    [] n.k \in {"date", "ts"} ->
         LET x == AnyTime(n.v)
         IN IF a.t = "str" THEN a.v = n.v \/ Lenient(n.v) \/ (x.ok /\ SqlTime(a.v).ok /\ SqlTime(a.v).t = x.t)
            ELSE a.t = "time" /\ x.ok /\ a.v = x.t
ArgsAre(ls, args) == Len(ls) = Len(args) /\ \A i \in 1..Len(ls) : ArgIs(ls[i], args[i])

\* every token is an operator, a name of the filter or a placeholder
TextOk(n, sql) ==
  LET t == SqlLex(sql) IN
  \A i \in 1..Len(t) : CASE t[i].k \in {"bad", "text"} -> FALSE
                         [] t[i].k = "ident" -> t[i].v \in Names(n)
                         [] t[i].k = "num" -> t[i].v \in {<<48>>, <<49>>}
                         [] OTHER -> TRUE
Marks(sql) == LET t == SqlLex(sql) IN Len(SelectSeq(t, LAMBDA x : x.k = "?"))

ArgsOn(n, e) ==
  IF e.out \notin {"value", "err"} THEN "outcome " \o e.out
    ELSE IF e.out = "err" THEN (IF HasSql(n) THEN "no SQL for a filter that has it" ELSE "ok")
    ELSE IF ~TextOk(n, e.sql) THEN "something else in the SQL text"
    ELSE IF Marks(e.sql) # Len(e.args) THEN "another number of arguments than placeholders"
    ELSE IF ArgsAre(Lits(n, FALSE), e.args) \/ ArgsAre(Lits(n, TRUE), e.args) THEN "ok" ELSE "other arguments"
JudgeSqlArgs(e) ==
  IF e.out = "noparse" THEN (IF Parse(e.s).ok THEN "a filter was refused" ELSE "skip")
  ELSE LET p == Parse(e.s) IN IF ~p.ok THEN "not a filter" ELSE ArgsOn(p.n, e)
=============================================================================
