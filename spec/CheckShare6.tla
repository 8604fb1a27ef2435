---------------------------- MODULE CheckShare6 -----------------------------
(* The tree of the filter e.s, read by many goroutines at once (Share6):     *)
(* e.outs are the different outcomes; each is what the filter says, whoever  *)
(* else reads it, and the tree stays as it is.                               *)
EXTENDS CheckEval6, CheckSql6, CheckIdent6, CheckDoc6, CheckDot6

Said(walk, m) == IF m \in {"ok", "skip"} THEN "ok" ELSE "together: " \o walk \o ": " \o m
OneRead(n, e, r) ==
  LET o == r.o IN
  CASE r.k = "eval" -> Said("evaluation", EvalOn(n, e.arg.recs[r.i], o))
    [] r.k = "sql" -> LET s == ShapeOn(n, o) IN IF s \in {"ok", "skip"} THEN Said("SQL", ArgsOn(n, o)) ELSE Said("SQL", s)
    [] r.k = "ident" -> Said("rewriting", RewriteOn(n, e.arg, o))
    [] r.k = "doc" -> Said("documents", DocOn(n, o))
    [] r.k = "dot" -> Said("drawing", DotOn(n, o))
    [] r.k = "tree" -> IF TreeMatch(n, o.tree) THEN "ok" ELSE "together: the tree reads otherwise"
    [] OTHER -> "together: a panic"
\* a reading without random names has one outcome
Settled(e) == \A i, j \in 1..Len(e.outs) : (e.outs[i].k = e.outs[j].k /\ e.outs[i].i = e.outs[j].i /\ i # j) => e.outs[i].k \in {"dot", "ident"}
JudgeShare(e) ==
  LET p == Parse(e.s) IN
  IF e.out = "noparse" THEN (IF p.ok THEN "a filter was refused" ELSE "skip")
  ELSE IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF ~p.ok THEN "not a filter"
  ELSE IF ~TreeMatch(p.n, e.tree) THEN "another tree"
  ELSE IF ~TreeMatch(p.n, e.after) THEN "the tree changed while it was read"
  ELSE LET v == [i \in 1..Len(e.outs) |-> OneRead(p.n, e, e.outs[i])]
           bad == {i \in 1..Len(v) : v[i] # "ok"}
       IN IF bad # {} THEN v[CHOOSE i \in bad : \A j \in bad : i <= j]
          ELSE IF ~Settled(e) THEN "together: two outcomes of one reading" ELSE "ok"
=============================================================================
