---------------------------- MODULE CheckCause6 -----------------------------
(* One evaluation that fails: what the error e.kind (and e.key, the field it *)
(* names) says is wrong is a cause the filter has on the record.             *)
EXTENDS Cause6, CheckEval6

JudgeCause(e) ==
  LET j == JudgeEval(e) IN
  IF e.out # "err" THEN (IF j = "an error where a value is due" \/ j = "a value where an error is due" THEN j ELSE IF j = "ok" THEN "ok" ELSE "skip")
  ELSE IF j \notin {"ok", "skip"} THEN j
  ELSE LET p == Parse(e.s)
           c == Causes(p.n, e.arg.rec)
           said == {x \in c : x.k = e.kind /\ x.v = e.key}
       IN IF ~p.ok THEN "skip"
          ELSE IF e.kind = "key" /\ (e.key \notin Names(p.n) \/ Lookup(e.arg.rec, e.key, 1) # Err) THEN "names a field that is not missing"
          ELSE IF \E x \in c : x.k = "?" THEN "skip"
          ELSE IF said # {} THEN "ok"
          ELSE IF \E x \in c : x.k = "pattern" THEN (IF e.kind = "other" THEN "ok" ELSE "another cause")
          ELSE "another cause"
=============================================================================
