---------------------------- MODULE CheckParse45 ----------------------------
(* What ParseTSL of v4 or v5 (e.arg.ver) made of the text e.s.               *)
EXTENDS Lang45, TraceLoop

Judge45(e) ==
  IF e.out \notin {"tree", "err"} THEN "outcome " \o e.out
  ELSE LET p == Parse45(e.arg.ver, e.s) IN
       CASE p.st = "?" -> "skip"
         [] p.st = "bad" -> IF e.out = "tree" THEN "a text that is not a filter is accepted" ELSE IF e.msg = 0 THEN "an error that says nothing" ELSE "ok"
         [] OTHER -> IF e.out = "err" THEN "a filter is rejected"
                     ELSE IF Node45(p.n, e.tree, 1) THEN "ok" ELSE "another tree"
=============================================================================
