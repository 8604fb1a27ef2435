----------------------------- MODULE CheckCli45 -----------------------------
(* The command line tools of v4 and v5 and the GraphQL search: the arguments *)
(* e.s (filter) and e.arg, exit status, and what was printed, read back.     *)
(* e.recs: the books under their public names.                               *)
EXTENDS CheckDot45, CheckMongo45

\* refused: a failing status, a message and no result
Refused(e) == IF e.code = 0 THEN "exit status 0" ELSE IF ~e.err THEN "no message" ELSE IF ~e.none THEN "a result beside the error" ELSE "ok"
Formats(t) == IF t = "tsl_mem" THEN {"", "json", "yaml", "prettyjson"} ELSE {"", "json", "yaml", "prettyjson", "dot", "sql"}

Public(V) == {Txt("title"), Txt("author"), Txt("spec.pages"), Txt("spec.rating")} \cup (IF V = 5 THEN {Txt("on_loan")} ELSE {})
Printed(e, want) == IF e.code # 0 THEN "refused"
                    ELSE IF "books" \notin DOMAIN e THEN "no list of books"
                    ELSE IF {e.books[i] : i \in 1..Len(e.books)} # want \/ Len(e.books) # Cardinality(want) THEN "other books"
                    ELSE "ok"
\* nothing but books, and none of those
Sane(e) == IF e.code = 0 /\ ("books" \notin DOMAIN e \/ \E i \in 1..Len(e.books) : e.books[i] = 0) THEN "no list of books" ELSE "skip"

JudgeMem(e, n) ==
  LET v == TLCEval([i \in 1..Len(e.recs) |-> Eval45(e.arg.ver, n, e.recs[i])])
  IN IF \E i \in 1..Len(v) : v[i].t = "?" THEN Sane(e)
     ELSE IF \E i \in 1..Len(v) : v[i] = Err THEN Refused(e)
     ELSE Printed(e, {i \in 1..Len(v) : v[i].v})

\* SQLite: no regular expressions, no ILIKE, and its LIKE ignores case
RECURSIVE HasOp(_, _), NoCase(_), Alike(_)
HasOp(n, ops) == CASE n.k = "bin" -> n.op \in ops \/ HasOp(n.l, ops) \/ HasOp(n.r, ops)
                   [] n.k = "un" -> n.op \in ops \/ HasOp(n.r, ops)
                   [] OTHER -> FALSE
NoCase(n) == CASE n.k = "bin" -> [n EXCEPT !.op = IF @ = "LIKE" THEN "ILIKE" ELSE @, !.l = NoCase(@), !.r = NoCase(@)]
               [] n.k = "un" -> [n EXCEPT !.r = NoCase(@)]
               [] OTHER -> n
IsBoolean(n) == n.k = "bool" \/ (n.k = "ident" /\ n.v = Txt("on_loan"))
Alike(n) ==
  CASE n.k = "bin" -> /\ Alike(n.l)
                      /\ Alike(n.r)
                      /\ n.op \notin {"MOD", "DIV"}
                      /\ IsBoolean(n.l) \/ IsBoolean(n.r) => n.op \in {"EQ", "NE"} /\ IsBoolean(n.l) /\ IsBoolean(n.r)
                      /\ MathOp(n.op) => n.l.k \in {"num", "ident", "bin"} /\ n.r.k \in {"num", "ident", "bin"}
    [] n.k = "un" -> Alike(n.r)
    [] OTHER -> TRUE
\* v4 has arithmetic in SQL but not in memory
JudgeTable(e, n) ==
  IF HasOp(n, {"REQ", "RNE", "ILIKE"}) THEN Refused(e)
  ELSE IF e.arg.prep = "never" /\ e.arg.tool = "tsl_sqlite" THEN Refused(e)
  ELSE IF e.arg.prep = "never" THEN (IF e.code # 0 THEN "refused" ELSE IF e.none THEN "ok" ELSE "books out of nothing")
  ELSE IF ~Alike(n) THEN Sane(e)
  ELSE LET m == NoCase(n)
           v == TLCEval([i \in 1..Len(e.recs) |-> Eval45(5, m, e.recs[i])])
       IN IF \E i \in 1..Len(v) : v[i] = Err \/ v[i].t = "?" THEN Sane(e)
          ELSE Printed(e, {i \in 1..Len(v) : v[i].v})

\* the documents the server holds are the books; it is asked for those that match
JudgeSearched(e, n) ==
  IF ~HasMongo(n) THEN (IF e.finds # 0 THEN "a query for a filter that has none" ELSE Refused(e))
  ELSE IF e.finds # 1 THEN "not one search"
  ELSE IF ~e.there THEN "the books are stored elsewhere"
  ELSE IF Len(e.rows) # Len(e.recs) THEN "not all books are stored"
  ELSE LET p == Printed(e, {e.arg.give[i] : i \in 1..Len(e.arg.give)})
           one(i) == LET v == Eval45(e.arg.ver, n, e.recs[i])
                         m == Query(e.arg.ver, e.doc, e.rows[i])
                     IN IF m = Err THEN "not a query"
                        ELSE IF ~Plain45(n, e.recs[i]) \/ v = Err \/ Vague \in {v, m} THEN "skip"
                        ELSE IF v = m THEN "ok" ELSE "the query selects other books"
           all == TLCEval({one(i) : i \in 1..Len(e.recs)})
       IN IF p # "ok" THEN p
          ELSE IF all \subseteq {"ok"} THEN "ok" ELSE IF all \subseteq {"ok", "skip"} THEN "skip" ELSE CHOOSE x \in all : x \notin {"ok", "skip"}

Utf8(s) == \A i \in 1..Len(s) : s[i] < 128
JudgeShown(e, n) ==
  CASE e.arg.fmt = "sql" ->
         IF HasOp(n, {"REQ", "RNE"}) THEN Refused(e)
         ELSE IF e.lib # "value" THEN "no SQL"
         ELSE IF e.code # 0 THEN "refused"
         ELSE LET want == Txt("sql:  SELECT * FROM table_name WHERE ") \o e.where \o <<10>> \o Txt("args: ") \o e.args \o <<10>>
              IN IF e.stdout = want THEN "ok" ELSE "another SQL statement"
    [] e.arg.fmt = "dot" ->
         IF e.code # 0 THEN "refused"
         ELSE JudgeDot45([s |-> e.s, out |-> "value", same |-> TRUE, tree |-> e.tree, dot |-> e.dot,
                          arg |-> [ver |-> e.arg.ver, id |-> Txt("root"), before |-> <<>>]])
    [] OTHER -> IF e.code # 0 THEN "refused"
                ELSE IF ~Utf8(e.s) THEN "skip"
                ELSE IF Node45(n, e.tree, 1) THEN "ok" ELSE "a document of another tree"

JudgeCli45(e) ==
  LET p == Parse45(e.arg.ver, e.s) IN
  IF e.out = "taken" THEN "skip"
  ELSE IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF e.arg.use = "flag" THEN Refused(e)
  ELSE IF p.st = "bad" \/ (e.arg.tool \in {"tsl_parser", "tsl_mem"} /\ e.arg.fmt \notin Formats(e.arg.tool)) THEN Refused(e)
  ELSE IF p.st # "ok" THEN "skip"
  ELSE IF e.arg.tool = "tsl_parser" THEN JudgeShown(e, p.n)
  ELSE IF ~(Names(p.n) \subseteq Public(e.arg.ver)) THEN (IF "finds" \in DOMAIN e /\ e.finds # 0 THEN "a search" ELSE Refused(e))
  ELSE CASE e.arg.tool = "tsl_mem" -> JudgeMem(e, p.n)
         [] e.arg.tool = "tsl_mongo" -> JudgeSearched(e, p.n)
         [] OTHER -> JudgeTable(e, p.n)
=============================================================================
