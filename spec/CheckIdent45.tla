---------------------------- MODULE CheckIdent45 ----------------------------
(* Identifier rewriting by v4 or v5: e.s under the mapping e.arg gives       *)
(* e.tree or an error; e.asked are the names the mapping was asked for.      *)
EXTENDS CheckIdent6, Lang45

RECURSIVE Renamed(_, _)
Renamed(n, to) ==
  CASE n.k = "ident" -> [k |-> "ident", v |-> to[n.v]]
    [] n.k = "bin" -> Bin(n.op, Renamed(n.l, to), Renamed(n.r, to))
    [] n.k = "un" -> Un(n.op, Renamed(n.r, to))
    [] OTHER -> n

JudgeIdent45(e) ==
  LET p == Parse45(e.arg.ver, e.s) IN
  IF e.out = "noparse" THEN (IF p.st = "ok" THEN "a filter is rejected" ELSE "skip")
  ELSE IF e.out \notin {"tree", "err"} THEN "outcome " \o e.out
  ELSE IF p.st # "ok" THEN "skip"
  ELSE IF ~e.same THEN "the tree was changed"
  ELSE LET occ == Occ(p.n)
           names == Set(occ)
           ans == [n \in names |-> Answer(e.arg, n)]
       IN IF \E n \in names : ans[n].no
            THEN (IF e.out # "err" THEN "a refused name got through"
                  ELSE IF ~e.own THEN "another error than that of the mapping"
                  ELSE IF Set(e.asked) \subseteq names THEN "ok" ELSE "asked for another name")
          ELSE IF e.out = "err" THEN "refused although every name is mapped"
          ELSE IF ~(Set(e.asked) = names /\ \A n \in names : Times(n, e.asked) = Times(n, occ)) THEN "not asked for every identifier"
          ELSE IF Node45(Renamed(p.n, [n \in names |-> ans[n].to]), e.tree, 1) THEN "ok" ELSE "another tree"
=============================================================================
