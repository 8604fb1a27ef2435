---------------------------- MODULE CheckFamily6 ----------------------------
(* Calls of every kind, one after the other in one process, with texts in    *)
(* common: each gives what its arguments say, whatever was called before.    *)
EXTENDS CheckParse6, CheckEval6, CheckSql6, CheckIdent6, CheckDoc6

JudgeFamily(e) ==
  CASE e.op = "parse" -> JudgeParse(e)
    [] e.op = "eval" -> JudgeEval(e)
    [] e.op = "sql" -> LET s == JudgeSqlShape(e) IN IF s \in {"ok", "skip"} THEN JudgeSqlArgs(e) ELSE s
    [] e.op = "ident" -> JudgeIdent(e)
    [] e.op = "doc" -> JudgeDoc(e)
=============================================================================
