----------------------------- MODULE CheckCli6 -----------------------------
(* The command line tools: the arguments e.s (filter) and e.arg, exit status, *)
(* and what was printed, read back.                                          *)
EXTENDS CheckDot6, CheckDoc6, Eval6

\* the tree printer shows time stamps to the second
NoFrac(v) == LET d == {i \in 1..Len(v) : v[i] = 46}
             IN IF d = {} THEN v
                ELSE LET a == CHOOSE i \in d : \A j \in d : i <= j
                         z == {i \in a + 1..Len(v) : ~IsDigit(v[i])}
                     IN SubSeq(v, 1, a - 1) \o (IF z = {} THEN <<>> ELSE SubSeq(v, CHOOSE i \in z : \A j \in z : i <= j, Len(v)))
RECURSIVE ToSeconds(_)
ToSeconds(n) ==
  CASE n.k = "ts" -> IF ParseLong(n.v).ok THEN [n EXCEPT !.v = NoFrac(@)] ELSE n
    [] n.k = "bin" -> [n EXCEPT !.l = ToSeconds(@), !.r = ToSeconds(@)]
    [] n.k = "un" -> [n EXCEPT !.r = ToSeconds(@)]
    [] n.k = "arr" -> [n EXCEPT !.e = [i \in 1..Len(@) |-> ToSeconds(@[i])]]
    [] OTHER -> n

\* refused: a failing status, a message and no result
Refused(e) == IF e.code = 0 THEN "exit status 0" ELSE IF ~e.err THEN "no message" ELSE IF ~e.none THEN "a result beside the error" ELSE "ok"
Known(e, fs) == e.arg.fmt \in fs \cup {""}

Columns == {<<Txt("title"), Txt("title")>>, <<Txt("author"), Txt("author")>>, <<Txt("pages"), Txt("spec.pages")>>,
            <<Txt("rating"), Txt("spec.rating")>>, <<Txt("on_loan"), Txt("onloan")>>}
Maps(x) == \E c \in Columns : c[1] = x
MapTo(x) == (CHOOSE c \in Columns : c[1] = x)[2]
RECURSIVE Mapped(_), AllMapped(_)
Mapped(n) ==
  CASE n.k = "ident" -> [n EXCEPT !.v = MapTo(@)]
    [] n.k = "bin" -> [n EXCEPT !.l = Mapped(@), !.r = Mapped(@)]
    [] n.k = "un" -> [n EXCEPT !.r = Mapped(@)]
    [] n.k = "arr" -> [n EXCEPT !.e = [i \in 1..Len(@) |-> Mapped(@[i])]]
    [] OTHER -> n
AllMapped(n) ==
  CASE n.k = "ident" -> Maps(n.v)
    [] n.k = "bin" -> AllMapped(n.l) /\ AllMapped(n.r)
    [] n.k = "un" -> AllMapped(n.r)
    [] n.k = "arr" -> \A i \in 1..Len(n.e) : AllMapped(n.e[i])
    [] OTHER -> TRUE

JudgeSearch(e, n) ==
  LET m == Mapped(n)
      v == TLCEval([i \in 1..Len(e.recs) |-> Eval(m, e.recs[i])])
      odd == {i \in 1..Len(v) : v[i].t \in {"?", "other", "nf"}}
      bad == {i \in 1..Len(v) : v[i] = Err}
      hit == {i \in 1..Len(v) : v[i].t = "bool" /\ v[i].v}
  IN IF odd # {} THEN "skip"
     ELSE IF bad # {} THEN Refused(e)
     ELSE IF e.code # 0 THEN "refused"
     ELSE IF "books" \notin DOMAIN e THEN "no list of books"
     ELSE IF {e.books[i] : i \in 1..Len(e.books)} # hit \/ Len(e.books) # Cardinality(hit) THEN "other books"
     ELSE "ok"

JudgeParser(e, n) ==
  CASE e.arg.fmt = "sql" ->
         IF e.lib # "value" THEN Refused(e)
         ELSE IF e.code # 0 THEN "refused"
         ELSE LET t == IF e.arg.table = <<>> THEN Txt("table_name") ELSE e.arg.table
                  want == Txt("sql:  SELECT * FROM ") \o t \o Txt(" WHERE ") \o e.where \o <<10>> \o Txt("args: ") \o e.args \o <<10>>
              IN IF e.stdout = want THEN "ok" ELSE "another SQL statement"
    [] e.arg.fmt = "dot" ->
         IF e.code # 0 THEN "refused"
         ELSE JudgeDot([s |-> e.s, out |-> "value", same |-> TRUE, tree |-> e.tree, dot |-> e.dot,
                        arg |-> [before |-> <<>>, id |-> <<>>]])
    [] OTHER ->
         IF ~Plain(n) \/ Big(n) \/ LenientDate(n) THEN "skip"
         ELSE IF e.code # 0 THEN "refused"
         ELSE IF TreeMatch(n, e.tree) THEN "ok" ELSE "a document of another tree"

JudgeCli(e) ==
  LET p == Parse(e.s) IN
  IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF e.arg.use # "plain" \/ (e.s = <<>> /\ e.arg.tool # "tsl") THEN (IF e.code = 0 THEN "exit status 0" ELSE IF e.err THEN "ok" ELSE "no message")
  ELSE IF ~p.ok THEN Refused(e)
  ELSE CASE e.arg.tool = "tsl" -> IF e.code # 0 THEN "refused"
                                  ELSE IF LenientDate(p.n) \/ ~Plain(p.n) THEN "skip"
                                  ELSE IF "tree" \in DOMAIN e /\ TreeMatch(ToSeconds(p.n), e.tree) THEN "ok" ELSE "another tree is shown"
         [] e.arg.tool = "tsl_parser" -> IF ~Known(e, {"json", "yaml", "dot", "sql"}) THEN Refused(e) ELSE JudgeParser(e, p.n)
         [] e.arg.tool = "tsl_mem" -> IF ~Known(e, {"json", "yaml"}) \/ ~AllMapped(p.n) THEN Refused(e) ELSE JudgeSearch(e, p.n)
=============================================================================
