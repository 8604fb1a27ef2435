------------------------------ MODULE CheckDot6 -----------------------------
(* The drawing e.dot of the filter e.s, whose tree was read as e.tree.       *)
EXTENDS Tree6, Dot, TraceLoop

KindName(k) == CASE k = "num" -> Txt("NUMBER") [] k = "str" -> Txt("STRING") [] k = "ident" -> Txt("IDENTIFIER")
                 [] k = "bool" -> Txt("BOOLEAN") [] k = "date" -> Txt("DATE") [] k = "ts" -> Txt("TIMESTAMP")
                 [] k = "null" -> Txt("NULL") [] k = "arr" -> Txt("ARRAY")
Strip(s) == TrimL(TrimR(s))
IsNumText(s) == LET q == Lex(s) IN Len(q) = 2 /\ q[1].k = "num"
\* x: what the leaf n is drawn with; f: its double
ValueShown(n, x, f) ==
  CASE n.k \in {"str", "ident"} -> Contains(x, n.v) /\ Len(x) <= Len(n.v) + 4
    [] n.k = "num" -> IF f.unb THEN Contains(Low(x), Txt("inf"))
                      ELSE LET y == Strip(x) IN
                           IsNumText(y) /\ LET a == Sign(y, 1)
                                               m == Magnitude(y, a, Len(y))
                                           IN f.neg = (y[1] = 45) /\ InInterval(m, f)
    [] n.k = "bool" -> Strip(x) = IF n.v THEN Txt("true") ELSE Txt("false")
    [] n.k = "null" -> Strip(x) = Txt("NULL")
    [] n.k \in {"date", "ts"} /\ Len(n.v) < 10 -> Contains(x, n.v)
    [] n.k \in {"date", "ts"} -> \/ Contains(x, SubSeq(n.v, 1, 10)) /\ (Len(n.v) < 19 \/ Contains(x, SubSeq(n.v, 12, 19)))
                                 \/ Lenient(n.v)

\* node n of the filter (place i of T) is drawn as id
RECURSIVE Drawn(_, _, _, _, _, _)
Drawn(n, T, i, id, lab, kids) ==
  LET t == T[i] IN
  /\ id \in DOMAIN lab
  /\ CASE n.k = "bin" -> /\ Strip(lab[id]) = Txt(n.op)
                         /\ Len(kids[id]) = 2
                         /\ Drawn(n.l, T, t.l, kids[id][1], lab, kids)
                         /\ Drawn(n.r, T, t.r, kids[id][2], lab, kids)
       [] n.k = "un" -> /\ Strip(lab[id]) = Txt(n.op)
                        /\ Len(kids[id]) = 1
                        /\ Drawn(n.r, T, t.r, kids[id][1], lab, kids)
       [] n.k = "arr" -> /\ Strip(lab[id]) = Txt("ARRAY")
                         /\ Len(kids[id]) = Len(n.e)
                         /\ \A j \in 1..Len(n.e) : Drawn(n.e[j], T, t.e[j], kids[id][j], lab, kids)
       [] OTHER -> /\ kids[id] = <<>>
                   /\ LET r == Label(lab[id])
                      IN /\ r.ok /\ Len(r.f) = 2
                         /\ Strip(r.f[1]) = KindName(n.k)
                         /\ ValueShown(n, r.f[2], IF n.k = "num" THEN t.f ELSE [unb |-> FALSE])

RECURSIVE Size(_), SizeAll(_, _)
Size(n) == CASE n.k = "bin" -> 1 + Size(n.l) + Size(n.r)
             [] n.k = "un" -> 1 + Size(n.r)
             [] n.k = "arr" -> 1 + SizeAll(n.e, 1)
             [] OTHER -> 1
SizeAll(e, i) == IF i > Len(e) THEN 0 ELSE Size(e[i]) + SizeAll(e, i + 1)

RECURSIVE Flat(_, _)
Flat(ed, i) == IF i > Len(ed) THEN <<>> ELSE ed[i].to \o Flat(ed, i + 1)
RECURSIVE KidsOf(_, _, _)
KidsOf(ed, i, x) == IF i > Len(ed) THEN <<>>
                    ELSE IF ed[i].from = x THEN ed[i].to \o KidsOf(ed, i + 1, x) ELSE KidsOf(ed, i + 1, x)

\* e: the drawing of the tree n, after a description of the node "before" if
\* so, the root called id unless that is empty
DotAfter(n, e, before, id) ==
  IF e.out # "value" THEN "outcome " \o e.out
  ELSE IF ~e.same THEN "the tree was changed"
  ELSE IF ~TreeMatch(n, e.tree) THEN "another tree"
  ELSE LET g == TLCEval(DotParse(e.dot)) IN
    IF ~g.ok THEN "not a DOT graph"
    ELSE LET pre == {i \in 1..Len(g.nodes) : before /\ g.nodes[i].id = Txt("before")}
             ids == TLCEval({g.nodes[i].id : i \in (1..Len(g.nodes)) \ pre})
             to == TLCEval(Flat(g.edges, 1))
             tos == TLCEval({to[i] : i \in 1..Len(to)})
             froms == {g.edges[i].from : i \in 1..Len(g.edges)}
         IN IF before /\ Cardinality(pre) # 1 THEN "what was before is lost"
            ELSE IF Cardinality(ids) + Cardinality(pre) # Len(g.nodes) THEN "a node is described twice"
            ELSE IF ~(tos \subseteq ids /\ froms \subseteq ids) THEN "an edge of an undescribed node"
            ELSE IF Cardinality(tos) # Len(to) THEN "a node with two parents"
            ELSE IF Cardinality(ids \ tos) # 1 THEN "not one root"
            ELSE IF Cardinality(ids) # Size(n) THEN "another number of nodes"
            ELSE LET lab == TLCEval([x \in ids |-> g.nodes[CHOOSE i \in 1..Len(g.nodes) : g.nodes[i].id = x].lab])
                     kids == TLCEval([x \in ids |-> KidsOf(g.edges, 1, x)])
                     root == CHOOSE x \in ids : x \notin tos
                 IN IF id # <<>> /\ root # id THEN "the root has another name"
                    ELSE IF Drawn(n, e.tree, 1, root, lab, kids) THEN "ok" ELSE "another drawing"
DotOn(n, e) == DotAfter(n, e, FALSE, <<>>)
JudgeDot(e) ==
  LET p == Parse(e.s) IN
  IF e.out = "noparse" THEN (IF p.ok THEN "a filter was refused" ELSE "skip")
  ELSE IF ~p.ok THEN "not a filter"
  ELSE DotAfter(p.n, e, e.arg.before # <<>>, e.arg.id)
=============================================================================
