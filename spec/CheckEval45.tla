---------------------------- MODULE CheckEval45 -----------------------------
(* One evaluation by v4 or v5: filter text e.s, record e.arg.rec, outcome.   *)
EXTENDS Eval45, TraceLoop

JudgeEval45(e) ==
  LET V == e.arg.ver
      p == Parse45(V, e.s)
  IN IF e.out = "noparse" THEN (IF p.st = "ok" THEN "a filter is rejected" ELSE "skip")
     ELSE IF e.out \notin {"value", "err"} THEN "outcome " \o e.out
     ELSE IF ~e.same THEN "the record or the tree changed"
     ELSE IF ~e.again THEN "a second evaluation has another outcome"
     ELSE IF p.st = "?" THEN "skip"
     ELSE IF p.st = "bad" THEN "a text that is not a filter is accepted"
     ELSE IF \E i \in 1..Len(e.reads) : e.reads[i] \notin Names(p.n) THEN "a field the filter does not name is read"
     ELSE LET v == Eval45(V, p.n, e.arg.rec)
          IN IF v.t = "?" THEN "skip"
             ELSE IF v = Err THEN (IF e.out = "err" THEN "ok" ELSE "a value where an error is due")
             ELSE IF e.out = "err" THEN "an error where a value is due"
             ELSE IF e.v = v.v THEN "ok" ELSE "another value"
=============================================================================
