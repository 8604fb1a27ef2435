---------------------------- MODULE CheckEval6 ------------------------------
(* One evaluation: filter text e.s, record e.arg.rec, outcome e.out, e.v.    *)
EXTENDS Eval6, TraceLoop

\* e: the evaluation of the tree n on the record rec
EvalOn(n, rec, e) ==
  IF e.out \notin {"value", "err"} THEN "outcome " \o e.out
  ELSE IF ~e.same THEN "the record or the tree changed"
  ELSE IF ~e.again THEN "a second evaluation has another outcome"
  ELSE IF \E i \in 1..Len(e.reads) : e.reads[i] \notin Names(n) THEN "a field the filter does not name is read"
    ELSE LET v == Eval(n, rec)
         IN IF v.t \in {"?", "other", "nf"} THEN "skip"
            ELSE IF v = Err THEN (IF e.out = "err" THEN "ok" ELSE "a value where an error is due")
            ELSE IF e.out = "err" THEN "an error where a value is due"
            ELSE LET m == IsValue(v, e.v) IN IF m = "no" THEN "another value" ELSE m
JudgeEval(e) ==
  IF e.out = "noparse" THEN (IF Parse(e.s).ok THEN "a filter was refused" ELSE "skip")
  ELSE LET p == Parse(e.s) IN IF ~p.ok THEN "not a filter" ELSE EvalOn(p.n, e.arg.rec, e)
=============================================================================
