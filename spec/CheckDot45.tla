----------------------------- MODULE CheckDot45 -----------------------------
(* The drawing e.dot of the filter e.s by v4 or v5, whose tree is e.tree;    *)
(* e.arg.id: the name asked for its root, e.arg.before: a text to go before. *)
EXTENDS CheckDot6, Lang45

OpName(op) ==
  Txt(CASE op = "EQ" -> "$eq" [] op = "NE" -> "$ne" [] op = "LT" -> "$lt" [] op = "LE" -> "$lte" [] op = "GT" -> "$gt" [] op = "GE" -> "$gte"
        [] op = "REQ" -> "$regex" [] op = "RNE" -> "$nregex" [] op = "LIKE" -> "$like" [] op = "ILIKE" -> "$ilike" [] op = "IN" -> "$in"
        [] op = "NOT IN" -> "$nin" [] op = "BETWEEN" -> "$between" [] op = "NOT BETWEEN" -> "$nbetween" [] op = "AND" -> "$and"
        [] op = "OR" -> "$or" [] op = "ADD" -> "$add" [] op = "SUB" -> "$subtract" [] op = "MUL" -> "$multiply" [] op = "DIV" -> "$divide"
        [] op = "MOD" -> "$modulo" [] op = "NOT" -> "$not" [] op = "IS NULL" -> "$nexists" [] op = "IS NOT NULL" -> "$exists")
LeafName(k) == Txt(CASE k = "num" -> "$number" [] k = "str" -> "$string" [] k = "ident" -> "$ident" [] k = "bool" -> "$boolean" [] OTHER -> "$date")

RECURSIVE Drawn45(_, _, _, _, _, _)
Drawn45(n, T, i, id, lab, kids) ==
  LET t == T[i] IN
  /\ id \in DOMAIN lab
  /\ CASE n.k = "bin" -> /\ Strip(lab[id]) = OpName(n.op)
                         /\ Len(kids[id]) = 2
                         /\ Drawn45(n.l, T, t.l, kids[id][1], lab, kids)
                         /\ Drawn45(n.r, T, t.r, kids[id][2], lab, kids)
       [] n.k = "un" -> /\ Strip(lab[id]) = OpName(n.op)
                        /\ Len(kids[id]) = 1
                        /\ Drawn45(n.r, T, t.r, kids[id][1], lab, kids)
       [] n.k = "arr" -> /\ Strip(lab[id]) = Txt("$array")
                         /\ Len(kids[id]) = Len(n.e)
                         /\ \A j \in 1..Len(n.e) : Drawn45(n.e[j], T, t.e[j], kids[id][j], lab, kids)
       [] OTHER -> /\ kids[id] = <<>>
                   /\ LET r == Label(lab[id])
                      IN /\ r.ok /\ Len(r.f) = 2
                         /\ Strip(r.f[1]) = LeafName(n.k)
                         /\ ValueShown(n, r.f[2], IF n.k = "num" THEN t.f ELSE [unb |-> FALSE])

JudgeDot45(e) ==
  LET p == Parse45(e.arg.ver, e.s) IN
  IF e.out = "noparse" THEN (IF p.st = "ok" THEN "a filter is rejected" ELSE "skip")
  ELSE IF e.out # "value" THEN "outcome " \o e.out
  ELSE IF p.st # "ok" THEN "skip"
  ELSE IF ~e.same THEN "the tree was changed"
  ELSE IF ~Node45(p.n, e.tree, 1) THEN "skip"
  ELSE LET g == TLCEval(DotParse(e.dot)) IN
    IF ~g.ok THEN "not a DOT graph"
    ELSE LET pre == {i \in 1..Len(g.nodes) : e.arg.before # <<>> /\ g.nodes[i].id = Txt("before")}
             ids == TLCEval({g.nodes[i].id : i \in (1..Len(g.nodes)) \ pre})
             to == TLCEval(Flat(g.edges, 1))
             tos == TLCEval({to[i] : i \in 1..Len(to)})
             froms == {g.edges[i].from : i \in 1..Len(g.edges)}
         IN IF e.arg.before # <<>> /\ Cardinality(pre) # 1 THEN "what was before is lost"
            ELSE IF Cardinality(ids) + Cardinality(pre) # Len(g.nodes) THEN "a node is described twice"
            ELSE IF ~(tos \subseteq ids /\ froms \subseteq ids) THEN "an edge of an undescribed node"
            ELSE IF Cardinality(tos) # Len(to) THEN "a node with two parents"
            ELSE IF Cardinality(ids \ tos) # 1 THEN "not one root"
            ELSE IF Cardinality(ids) # Size(p.n) THEN "another number of nodes"
            ELSE LET lab == TLCEval([x \in ids |-> g.nodes[CHOOSE i \in 1..Len(g.nodes) : g.nodes[i].id = x].lab])
                     kids == TLCEval([x \in ids |-> KidsOf(g.edges, 1, x)])
                     root == CHOOSE x \in ids : x \notin tos
                 IN IF e.arg.id # <<>> /\ root # e.arg.id THEN "the root has another name"
                    ELSE IF Drawn45(p.n, e.tree, 1, root, lab, kids) THEN "ok" ELSE "another drawing"
=============================================================================
