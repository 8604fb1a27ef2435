----------------------------- MODULE CheckIdent6 ----------------------------
(* Identifier rewriting: e.s under the mapping e.arg gives e.tree or an      *)
(* error; e.asked are the names the mapping was asked for.                   *)
EXTENDS Tree6, TraceLoop

\* the mapping's answer: [no] or [no, to]
Answer(a, n) ==
  LET h == {i \in 1..Len(a.map) : a.map[i].n = n}
  IN IF h # {} THEN LET m == a.map[CHOOSE i \in h : \A j \in h : i <= j] IN [no |-> m.no, to |-> m.to]
     ELSE [no |-> a.other = "refuse", to |-> n]

\* the identifier occurrences, from left to right
RECURSIVE Occ(_), OccAll(_, _)
Occ(n) == CASE n.k = "ident" -> <<n.v>>
            [] n.k = "bin" -> Occ(n.l) \o Occ(n.r)
            [] n.k = "un" -> Occ(n.r)
            [] n.k = "arr" -> OccAll(n.e, 1)
            [] OTHER -> <<>>
OccAll(e, i) == IF i > Len(e) THEN <<>> ELSE Occ(e[i]) \o OccAll(e, i + 1)

RECURSIVE Rewrite(_, _)
Rewrite(n, to) ==
  CASE n.k = "ident" -> to[n.v]
    [] n.k = "bin" -> Bin(n.op, Rewrite(n.l, to), Rewrite(n.r, to))
    [] n.k = "un" -> Un(n.op, Rewrite(n.r, to))
    [] n.k = "arr" -> Arr([i \in 1..Len(n.e) |-> Rewrite(n.e[i], to)])
    [] OTHER -> n

Times(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
Set(s) == {s[i] : i \in 1..Len(s)}

\* e: the tree n rewritten under the mapping a
RewriteOn(n, a, e) ==
  IF e.out \notin {"tree", "err"} THEN "outcome " \o e.out
  ELSE IF ~e.same THEN "the tree was changed"
  ELSE IF ~e.free THEN "the tree changed when the new one was freed"
  ELSE LET occ == Occ(n)
           names == Set(occ)
           ans == [x \in names |-> Answer(a, x)]
           par == [x \in names |-> IF ans[x].no THEN [ok |-> FALSE] ELSE Parse(ans[x].to)]
           good == \A x \in names : par[x].ok
       IN IF ~good THEN (IF e.out = "err" THEN (IF Set(e.asked) \subseteq names THEN "ok" ELSE "asked for another name")
                         ELSE "a refused or unparsable name got through")
          ELSE IF e.out = "err" THEN "refused although every name is mapped"
          ELSE IF ~(Set(e.asked) = names /\ \A x \in names : Times(x, e.asked) = Times(x, occ))
            THEN "not asked for every identifier"
          ELSE IF ~TreeMatch(Rewrite(n, [x \in names |-> par[x].n]), e.tree) THEN "another tree" ELSE "ok"
JudgeIdent(e) ==
  LET p == Parse(e.s) IN
  IF e.out = "noparse" THEN (IF p.ok THEN "a filter was refused" ELSE "skip")
  ELSE IF ~p.ok THEN "not a filter"
  ELSE RewriteOn(p.n, e.arg, e)
=============================================================================
