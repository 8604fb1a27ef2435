---------------------------- MODULE CheckClone6 ----------------------------
(* Clone, detach and attach on the tree of any filter: e.arg.path leads from *)
(* the root to the node taken out (1 left or child, 2 right; an element's    *)
(* place in an array).  e.arg.way: the call for the last step.               *)
EXTENDS Tree6, Place6, TraceLoop

Bads(e, n, p) ==
  LET part == PartAt(n, p, 1)
      root == p = <<>>
      owner == IF root THEN Gap ELSE PartAt(n, SubSeq(p, 1, Len(p) - 1), 1)
      \* an element of an array can not be detached
      out == ~root /\ owner.k \in {"bin", "un"}
      M(t, f) == f \in DOMAIN e.got /\ TreeMatch(t, e.got[f])
  IN IF ~M(n, "clone") THEN "the clone reads otherwise"
     ELSE IF ~M(n, "source") THEN "cloning changed the tree"
     ELSE IF ~M(IF out THEN part ELSE Gap, "part") THEN "another part was detached"
     ELSE IF ~M(IF out THEN Hole(n, p) ELSE n, "rest") THEN "the rest reads otherwise after detaching"
     ELSE IF ~M(n, "clone2") THEN "detaching from the tree changed its clone"
     ELSE IF ~M(n, "clone3") THEN "freeing the tree changed its clone"
     ELSE IF e.wrong THEN "a node of another shape let a child be attached or detached"
     ELSE IF ~M(IF out THEN Hole(n, p) ELSE n, "rest2") THEN "the clone's rest reads otherwise"
     ELSE IF e.attached # out THEN "attaching the part answers otherwise"
     ELSE IF ~M(n, "joined") THEN "the tree reads otherwise after the part was attached"
     ELSE IF ~M(n, "joined2") THEN "freeing the other tree changed the part attached"
     ELSE IF ~M(Replace(n, p, 1, n), "deep") THEN "the tree with itself put in place of the part reads otherwise"
     ELSE "ok"
JudgeClone(e) ==
  LET p == Parse(e.s) IN
  IF e.out = "noparse" THEN (IF p.ok THEN "a filter was refused" ELSE "skip")
  ELSE IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF ~p.ok THEN "not a filter"
  ELSE IF ~Sound(p.n, e.arg.path, 1) THEN "another shape"
  ELSE Bads(e, p.n, e.arg.path)
=============================================================================
