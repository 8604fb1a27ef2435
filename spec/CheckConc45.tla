---------------------------- MODULE CheckConc45 -----------------------------
(* Recorded sessions of v4 and v5, as those of v6 (CheckSession6); parses    *)
(* and evaluations that nobody else made are judged by what they should give.*)
EXTENDS CheckSession6, CheckParse45, CheckEval45

Own(x) == CASE x.op = "parse" -> Judge45(x) [] x.op = "eval" -> JudgeEval45(x) [] OTHER -> "ok"
Fine(s) == LET b == First(Len(s), LAMBDA i : s[i].k = "new" /\ Own(s[i].x) \notin {"ok", "skip"})
           IN IF b = 0 THEN "ok" ELSE "among other calls: " \o Own(s[b].x)
JudgeConc45(e) ==
  LET j == JudgeSession(e) IN
  IF j # "ok" \/ e.op = "session" THEN j
  ELSE LET all == [g \in 1..Len(e.logs) |-> Fine(e.logs[g])]
           bad == {g \in 1..Len(all) : all[g] # "ok"}
       IN IF bad = {} THEN "ok" ELSE "goroutine: " \o all[CHOOSE g \in bad : TRUE]
=============================================================================
