---------------------------- MODULE CheckFamily45 ---------------------------
(* As CheckFamily6, for v4 and v5.                                           *)
EXTENDS CheckParse45, CheckEval45, CheckSql45, CheckIdent45, CheckMongo45

JudgeFamily45(e) ==
  CASE e.op = "parse" -> Judge45(e)
    [] e.op = "eval" -> JudgeEval45(e)
    [] e.op = "sql" -> JudgeSql45(e)
    [] e.op = "ident" -> JudgeIdent45(e)
    [] e.op = "mongo" -> JudgeMongo45(e)
=============================================================================
