---------------------------- MODULE CheckTotal45 ----------------------------
(* All that v4 or v5 does with a text: a tree or an error, the tree only for *)
(* a filter; every walk of the tree ends in a value or an error and leaves   *)
(* the tree as it was.                                                       *)
EXTENDS Lang45, TraceLoop

JudgeTotal45(e) ==
  IF e.out = "noparse" THEN
    (IF Parse45(e.arg.ver, e.s).st = "ok" THEN "a filter is rejected" ELSE "ok")
  ELSE IF e.out # "tree" THEN "outcome " \o e.out
  ELSE IF \E w \in DOMAIN e.walks : e.walks[w] \notin {"value", "err", "refused"}
    THEN LET w == CHOOSE w \in DOMAIN e.walks : e.walks[w] \notin {"value", "err", "refused"} IN w \o ": outcome " \o e.walks[w]
  ELSE IF ~e.same THEN "a walk changed the tree"
  ELSE IF Parse45(e.arg.ver, e.s).st = "bad" THEN "a text that is not a filter is accepted"
  ELSE "ok"
=============================================================================
