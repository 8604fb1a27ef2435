----------------------------- MODULE CheckParse6 ----------------------------
EXTENDS Tree6, TraceLoop

(* The error object of a rejected text: it names the input, and on a text of *)
(* one line its position lies in the first token that can not be part of a   *)
(* filter (or at the end, where more is needed); its context is a piece of   *)
(* the input.                                                                *)
OffendingToken(s) == Lex(s)[Parse(s).i]
PositionOk(e) ==
  IF ContainsC(e.s, 10) \/ ContainsC(e.s, 0) THEN TRUE
  ELSE LET t == OffendingToken(e.s) IN e.pos >= t.a - 2 /\ e.pos <= t.b - 1
ErrorOk(e) == /\ e.syn
              /\ e.input = e.s
              /\ Len(e.msg) > 0
              /\ Contains(e.text, e.msg)
              /\ Contains(e.text, e.s)
              /\ e.pos >= -1 /\ e.pos <= Len(e.s)
              /\ Contains(e.s, e.ctx)

JudgeParse(e) ==
  IF e.out \notin {"tree", "err"} THEN "outcome " \o e.out
  ELSE LET p == Parse(e.s)
       IN IF p.ok /\ e.out = "err" THEN "a filter is rejected"
          ELSE IF ~p.ok /\ e.out = "tree" THEN "a text that is not a filter is accepted"
          ELSE IF p.ok THEN (IF TreeMatch(p.n, e.tree) THEN "ok" ELSE "another tree")
          ELSE IF ~ErrorOk(e) THEN "unusable error"
          ELSE IF ~PositionOk(e) THEN "error at another place" ELSE "ok"
=============================================================================
