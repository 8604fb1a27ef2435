----------------------------- MODULE CheckSql45 -----------------------------
(* The SQL made of a filter of v4 or v5: text e.sql, arguments e.args, and   *)
(* the tree e.tree it was made of.                                           *)
EXTENDS Lang45, Sql, TraceLoop

\* SQL has no regular expressions
RECURSIVE HasSql45(_)
HasSql45(n) == CASE n.k = "bin" -> n.op \notin {"REQ", "RNE"} /\ HasSql45(n.l) /\ HasSql45(n.r)
                 [] n.k = "un" -> HasSql45(n.r)
                 [] OTHER -> TRUE

\* a name that SQL reads as the name of a column
PlainName(v) == Len(v) > 0 /\ IdStart(v[1]) /\ IdEnd(v, 1) = Len(v) + 1 /\ SqlWord(v) = "ident"
                /\ \A i \in 1..Len(v) : IsLetter(v[i]) \/ IsDigit(v[i]) \/ v[i] \in {46, 95}

\* --- literals: as an argument, or (inside arithmetic) in the text
Whole(b) == IF b THEN [d |-> <<1>>, e |-> 1] ELSE [d |-> <<>>, e |-> 0]
IsArg(t, a) ==
  CASE t.k = "num" -> a.t = "num" /\ a.f = t.f
    [] t.k = "str" -> a.t = "str" /\ a.v = t.v
    [] t.k = "bool" -> \/ a.t = "bool" /\ a.v = t.v
                       \/ a.t = "num" /\ ~a.neg /\ [d |-> a.d, e |-> a.e] = Whole(t.v)
    [] t.k = "date" -> IF a.t = "str" THEN AnyTime(a.v).ok /\ AnyTime(a.v).t = t.t ELSE a.t = "time" /\ a.v = t.t
    [] OTHER -> FALSE
Unsigned(q) == IF q.k = "un" /\ q.op = "NEG" THEN q.r ELSE q
InText(t, q) ==
  CASE t.k = "num" -> LET u == Unsigned(q)
                      IN u.k = "sqlnum" /\ InInterval(Magnitude(u.v, 1, Len(u.v)), t.f)
                         /\ (t.f.neg = (q.k = "un") \/ InInterval([d |-> <<>>, e |-> 0], t.f))
    [] t.k = "bool" -> q.k = "sqlnum" /\ q.v = (IF t.v THEN <<49>> ELSE <<48>>)
    [] t.k = "date" -> q.k = "sqltext" /\ AnyTime(q.v).ok /\ AnyTime(q.v).t = t.t
    [] OTHER -> FALSE
IsLiteral(t) == t.k \in {"num", "str", "bool", "date"}
Bound(t, q, A) == q.k = "arg" /\ IsArg(t, A[q.i])

Constant(q, same) == q.k = "bin" /\ q.op = "EQ" /\ q.l.k = "sqlnum" /\ q.r.k = "sqlnum" /\ (q.l.v = q.r.v) = same
RECURSIVE Operands(_, _, _), SqlChain(_, _)
Operands(T, i, op) == IF T[i].k = "bin" /\ T[i].op = op THEN Operands(T, T[i].l, op) \o Operands(T, T[i].r, op) ELSE <<i>>
SqlChain(q, op) == IF q.k = "bin" /\ q.op = op THEN SqlChain(q.l, op) \o SqlChain(q.r, op) ELSE <<q>>
Inner(op) == CASE op = "NOT IN" -> "IN" [] op = "NOT BETWEEN" -> "BETWEEN"

\* the tree T from node i on and the condition q with arguments A are the same
RECURSIVE SameQ(_, _, _, _)
SameList(T, i, q, A) == /\ q.k = "arr"
                        /\ Len(q.e) = Len(T[i].e)
                        /\ \A j \in 1..Len(q.e) : Bound(T[T[i].e[j]], q.e[j], A)
SameQ(T, i, q, A) ==
  LET t == T[i] IN
  CASE t.k = "ident" -> q.k = "ident" /\ q.v = t.v
    [] IsLiteral(t) -> Bound(t, q, A) \/ InText(t, q)
    [] t.k = "un" ->
        (CASE t.op = "NOT" -> q.k = "un" /\ q.op = "NOT" /\ SameQ(T, t.r, q.r, A)
           [] t.op = "IS NULL" -> q.k = "bin" /\ q.op = "IS" /\ q.r.k = "null" /\ SameQ(T, t.r, q.l, A)
           [] t.op = "IS NOT NULL" -> q.k = "un" /\ q.op = "NOT" /\ q.r.k = "bin" /\ q.r.op = "IS" /\ q.r.r.k = "null" /\ SameQ(T, t.r, q.r.l, A))
    [] t.k = "bin" ->
        (CASE t.op = "IN" /\ T[t.r].e = <<>> -> Constant(q, FALSE)
           [] t.op = "NOT IN" /\ T[t.r].e = <<>> -> Constant(q, TRUE)
           [] t.op \in {"IN", "BETWEEN"} -> q.k = "bin" /\ q.op = t.op /\ SameQ(T, t.l, q.l, A) /\ SameList(T, t.r, q.r, A)
           [] t.op \in {"NOT IN", "NOT BETWEEN"} ->
                /\ q.k = "un"
                /\ q.op = "NOT"
                /\ q.r.k = "bin"
                /\ q.r.op = Inner(t.op)
                /\ SameQ(T, t.l, q.r.l, A)
                /\ SameList(T, t.r, q.r.r, A)
           [] t.op \in {"AND", "OR"} ->
                LET a == Operands(T, i, t.op)
                    b == SqlChain(q, t.op)
                IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameQ(T, a[j], b[j], A)
           [] OTHER -> /\ q.k = "bin"
                       /\ q.op = t.op
                       /\ SameQ(T, t.l, q.l, A)
                       /\ IF IsLiteral(T[t.r]) /\ ~MathOp(t.op) THEN Bound(T[t.r], q.r, A) ELSE SameQ(T, t.r, q.r, A))
    [] OTHER -> FALSE

\* the literals compared with, from left to right (math: those of arithmetic too)
RECURSIVE Bindings(_, _, _)
Bindings(T, i, math) ==
  LET t == T[i] IN
  CASE IsLiteral(t) -> <<t>>
    [] t.k = "un" -> Bindings(T, t.r, math)
    [] t.k = "arr" -> [j \in 1..Len(t.e) |-> T[t.e[j]]]
    [] t.k = "bin" -> IF MathOp(t.op) /\ ~math THEN <<>>
                      ELSE IF t.op \in {"IN", "NOT IN"} /\ T[t.r].e = <<>> THEN <<>>
                      ELSE Bindings(T, t.l, math) \o Bindings(T, t.r, math)
    [] OTHER -> <<>>
AllBound(ts, A) == Len(ts) = Len(A) /\ \A j \in 1..Len(ts) : IsArg(ts[j], A[j])

JudgeSql45(e) ==
  IF e.out \notin {"value", "err", "noparse"} THEN "outcome " \o e.out
  ELSE LET p == Parse45(e.arg.ver, e.s) IN
       IF e.out = "noparse" THEN (IF p.st = "ok" THEN "a filter is rejected" ELSE "skip")
       ELSE IF ~e.same THEN "the tree or a second answer changed"
       ELSE IF p.st # "ok" THEN "skip"
       ELSE IF ~HasSql45(p.n) THEN (IF e.out = "err" THEN "ok" ELSE "SQL for a filter that has none")
       ELSE IF e.out = "err" THEN "no SQL for a filter that has it"
       ELSE IF ~Node45(p.n, e.tree, 1) THEN "skip"
       ELSE IF ~(AllBound(Bindings(e.tree, 1, FALSE), e.args) \/ AllBound(Bindings(e.tree, 1, TRUE), e.args)) THEN "other arguments"
       ELSE IF \E v \in Names(p.n) : ~PlainName(v) THEN "ok"
       ELSE LET q == SqlParse(e.sql)
            IN IF ~q.ok THEN "not an SQL condition"
               ELSE IF q.q # Len(e.args) THEN "another number of arguments than placeholders"
               ELSE IF SameQ(e.tree, 1, q.n, e.args) THEN "ok" ELSE "another condition"
=============================================================================
