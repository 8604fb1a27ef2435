---------------------------- MODULE CheckMongo45 ----------------------------
(* The query document e.doc made of the filter e.s by v4 or v5, and records  *)
(* e.arg.rows that it must tell apart as the filter does.                    *)
EXTENDS Mongo, TraceLoop

\* filters that a query document can express
Named(n) == n.k = "ident" /\ (n.v = <<>> \/ n.v[1] # 36)
RECURSIVE HasMongo(_)
HasMongo(n) ==
  CASE n.k = "un" -> n.op # "NOT" /\ Named(n.r)
    [] n.op \in {"AND", "OR"} -> HasMongo(n.l) /\ HasMongo(n.r)
    [] n.op \in CmpOps45 -> Named(n.l) /\ n.r.k \in {"num", "str", "bool", "date", "ts"}
    [] n.op \in {"IN", "NOT IN", "BETWEEN", "NOT BETWEEN"} -> Named(n.l) /\ \A i \in 1..Len(n.r.e) : n.r.e[i].k \in {"num", "str"}
    [] n.op \in {"REQ", "RNE"} -> Named(n.l) /\ n.r.k = "str"
    [] OTHER -> FALSE
\* not judged: booleans compared with something else, moments finer than a
\* millisecond, and what the negations that MongoDB has operators of its own for
\* say of fields that are not there or null
RECURSIVE Plain45(_, _)
Fine(n) == n.k = "ts" /\ Len(n.v) > 24 /\ n.v[20] = 46
Plain45(n, rec) ==
  CASE n.k = "un" -> LET v == Lookup(rec, n.r.v, 1) IN v = Err \/ v.t # "null"
    [] n.op \in {"AND", "OR"} -> Plain45(n.l, rec) /\ Plain45(n.r, rec)
    [] OTHER -> /\ ~Fine(n.r)
                /\ LET v == Lookup(rec, n.l.v, 1)
                   IN IF v = Err \/ v.t = "null" THEN n.op \notin {"NE", "NOT IN", "RNE"} ELSE (v.t = "bool" => n.r.k = "bool")

JudgeMongo45(e) ==
  LET V == e.arg.ver
      p == Parse45(V, e.s)
  IN
  IF e.out \notin {"value", "err", "noparse", "refused"} THEN "outcome " \o e.out
  ELSE IF e.out = "noparse" THEN (IF p.st = "ok" THEN "a filter is rejected" ELSE "skip")
  ELSE IF ~e.same THEN "the tree or a second answer changed"
  ELSE IF p.st # "ok" THEN "skip"
  ELSE IF ~HasMongo(p.n) THEN (IF e.out = "err" THEN "ok" ELSE "a query for a filter that has none")
  ELSE IF e.out = "err" THEN "no query for a filter that has one"
  ELSE IF e.out = "refused" THEN (IF ContainsC(e.s, 0) THEN "skip" ELSE "a query that can not be sent")
  ELSE LET one(i) == LET rec == e.arg.rows[i]
                         v == Eval45(V, p.n, rec)
                         m == Query(V, e.doc, rec)
                     IN IF m = Err THEN "not a query"
                        ELSE IF ~Plain45(p.n, rec) \/ v = Err \/ Vague \in {v, m} THEN "skip"
                        ELSE IF v = m THEN "ok"
                        ELSE "the query selects other records"
           all == {one(i) : i \in 1..Len(e.arg.rows)}
       IN IF "not a query" \in all THEN "not a query"
          ELSE IF "the query selects other records" \in all THEN "the query selects other records"
          ELSE IF "ok" \in all THEN "ok" ELSE "skip"
=============================================================================
