---------------------------- MODULE CheckGraft6 -----------------------------
(* A tree put together from the trees of several filters (e.s, and the parts *)
(* of the filters of e.arg.steps), and all that is done with it: each walk   *)
(* treats it as the tree it reads as.  e.hole: the last part taken out again.*)
EXTENDS CheckEval6, CheckSql6, CheckIdent6, CheckDoc6, CheckDot6, Place6

RECURSIVE Grafted(_, _, _)
\* [ok, n]: the tree after the steps from the i-th on
Grafted(n, st, i) ==
  IF i > Len(st) THEN [ok |-> TRUE, n |-> n]
  ELSE LET q == Parse(st[i].s) IN
       IF ~q.ok \/ ~Sound(n, st[i].at, 1) \/ ~Sound(q.n, st[i].from, 1) THEN [ok |-> FALSE]
       ELSE Grafted(Replace(n, st[i].at, 1, PartAt(q.n, st[i].from, 1)), st, i + 1)

\* IS with anything but NULL can not be written
RECURSIVE Strange(_)
Strange(n) == CASE n.k = "bin" -> (n.op = "IS" /\ n.r.k # "null") \/ Strange(n.l) \/ Strange(n.r)
                [] n.k = "un" -> Strange(n.r)
                [] n.k = "arr" -> \E i \in 1..Len(n.e) : Strange(n.e[i])
                [] OTHER -> FALSE
Say(walk, m) == IF m \in {"ok", "skip"} THEN "ok" ELSE walk \o ": " \o m
First(s) == IF \A i \in 1..Len(s) : s[i] = "ok" THEN "ok" ELSE s[CHOOSE i \in 1..Len(s) : s[i] # "ok" /\ \A j \in 1..i - 1 : s[j] = "ok"]

\* an incomplete tree: every walk ends, and leaves the tree as it is
HoleOk(e, n) ==
  IF ~TreeMatch(n, e.tree) THEN "another tree after a part was taken out"
  ELSE IF ~TreeMatch(n, e.after) THEN "a walk changed the incomplete tree"
  ELSE IF e.eval.out \notin {"value", "err"} \/ e.sql.out \notin {"value", "err"} \/ e.ident.out \notin {"tree", "err"}
          \/ e.dot.out \notin {"value", "err"} \/ e.doc.out \notin {"value", "err"}
    THEN "a walk of an incomplete tree does not end in a value or an error"
  ELSE IF e.sql.out = "value" THEN "SQL for an incomplete tree"
  ELSE "ok"
JudgeGraft(e) ==
  LET p == Parse(e.s)
      st == e.arg.steps
  IN IF e.out = "noparse" THEN (IF p.ok /\ \A i \in 1..Len(st) : Parse(st[i].s).ok THEN "a filter was refused" ELSE "skip")
     ELSE IF e.out # "done" THEN "outcome " \o e.out
     ELSE IF ~p.ok THEN "not a filter"
     ELSE LET g == Grafted(p.n, st, 1) IN
       IF ~g.ok THEN "not a filter, or another shape"
       ELSE IF ~TreeMatch(g.n, e.tree) THEN "another tree was put together"
       ELSE IF ~TreeMatch(g.n, e.clone) THEN "the clone reads otherwise"
       ELSE LET way == st[Len(st)].at
                o == PartAt(g.n, SubSeq(way, 1, Len(way) - 1), 1)
            IN First(<<IF Strange(g.n) THEN "ok" ELSE Say("evaluation", EvalOn(g.n, e.arg.rec, e.eval)),
                       IF Strange(g.n) THEN "ok" ELSE Say("SQL", ShapeOn(g.n, e.sql)),
                       IF Strange(g.n) THEN "ok" ELSE Say("SQL", ArgsOn(g.n, e.sql)),
                       Say("rewriting", RewriteOn(g.n, e.arg, e.ident)),
                       Say("documents", DocOn(g.n, e.doc)),
                       Say("drawing", DotOn(g.n, e.dot)),
                       IF o.k = "arr" THEN "ok" ELSE HoleOk(e.hole, Hole(g.n, way))>>)
=============================================================================
