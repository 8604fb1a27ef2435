---------------------------- MODULE CheckShare45 ----------------------------
(* The tree of the filter e.s of v4 or v5, read by many goroutines at once   *)
(* (Share6): e.outs are the different outcomes; each is what the filter      *)
(* says, whoever else reads it, and the tree stays as it is.                 *)
EXTENDS CheckEval45, CheckSql45, CheckIdent45, CheckMongo45, CheckDot45

Said(walk, m) == IF m \in {"ok", "skip"} THEN "ok" ELSE "together: " \o walk \o ": " \o m
Reading(e, o, arg) == o @@ [s |-> e.s, arg |-> arg @@ [ver |-> e.arg.ver]]
OneRead45(p, e, r) ==
  LET o == r.o IN
  CASE r.k = "eval" -> Said("evaluation", JudgeEval45(Reading(e, o, [rec |-> e.arg.recs[r.i]])))
    [] r.k = "sql" -> Said("SQL", JudgeSql45(Reading(e, o, [x |-> 0])))
    [] r.k = "ident" -> Said("rewriting", JudgeIdent45(Reading(e, o, e.arg.ident)))
    [] r.k = "mongo" -> Said("query", JudgeMongo45(Reading(e, o, [rows |-> e.arg.recs])))
    [] r.k = "dot" -> Said("drawing", JudgeDot45(Reading(e, o, e.arg.dot)))
    [] r.k = "tree" -> IF p.st = "ok" /\ Node45(p.n, e.tree, 1) /\ ~Node45(p.n, o.tree, 1) THEN "together: the tree reads otherwise" ELSE "ok"
    [] OTHER -> "together: a panic"
\* a reading without random names has one outcome
Settled(e) == \A i, j \in 1..Len(e.outs) : (e.outs[i].k = e.outs[j].k /\ e.outs[i].i = e.outs[j].i /\ i # j) => e.outs[i].k \in {"dot", "ident"}
JudgeShare45(e) ==
  LET p == TLCEval(Parse45(e.arg.ver, e.s)) IN
  IF e.out = "noparse" THEN (IF p.st = "ok" THEN "a filter is rejected" ELSE "skip")
  ELSE IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF p.st = "bad" THEN "a text that is not a filter is accepted"
  ELSE IF e.tree # e.after THEN "the tree changed while it was read"
  ELSE LET v == [i \in 1..Len(e.outs) |-> OneRead45(p, e, e.outs[i])]
           bad == {i \in 1..Len(v) : v[i] # "ok"}
       IN IF bad # {} THEN v[CHOOSE i \in bad : \A j \in bad : i <= j]
          ELSE IF ~Settled(e) THEN "together: two outcomes of one reading" ELSE "ok"
=============================================================================
