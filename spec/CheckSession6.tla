--------------------------- MODULE CheckSession6 ---------------------------
(* Recorded sessions: the outcome (its digest) of every call is a function   *)
(* of the call, the one it has in a process of its own (Parser6!AsAlone);    *)
(* trees handed out stay as they are.                                        *)
EXTENDS TraceLoop

First(n, Bad(_)) == IF \E i \in 1..n : Bad(i) THEN CHOOSE i \in 1..n : Bad(i) /\ \A j \in 1..i - 1 : ~Bad(j) ELSE 0
\* the outcomes: a pool call always gives its own; hold gives the same tree each time
Steps(e, s) ==
  LET odd(i) == s[i].odd # <<>>
      off(i) == s[i].k = "call" /\ s[i].d # e.arg.pool[s[i].c].alone
      new(i) == s[i].k = "new" /\ s[i].d # s[i].e
      holds == {<<s[i].c, s[i].d>> : i \in {j \in 1..Len(s) : s[j].k = "hold"}}
      a == First(Len(s), off)
      b == First(Len(s), odd)
      c == First(Len(s), new)
  IN IF a # 0 THEN "call " \o ToString(s[a].c) \o " of the pool (" \o e.arg.pool[s[a].c].op \o ") comes out otherwise than alone, as step " \o ToString(a)
     ELSE IF b # 0 THEN "a tree handed out before changed at step " \o ToString(b)
     ELSE IF c # 0 THEN "a call (" \o s[c].op \o ") comes out otherwise than later, without company, at step " \o ToString(c)
     ELSE IF \E x \in holds : \E y \in holds : x[1] = y[1] /\ x[2] # y[2] THEN "the same text gives two trees"
     ELSE "ok"
JudgeSession(e) ==
  IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF e.op = "session" THEN (IF Len(e.steps) # Len(e.arg.steps) THEN "steps are missing" ELSE Steps(e, e.steps))
  ELSE LET all == [g \in 1..Len(e.logs) |-> Steps(e, e.logs[g])]
           bad == {g \in 1..Len(all) : all[g] # "ok"}
           merged == UNION {{<<e.logs[g][i].c, e.logs[g][i].d>> : i \in {j \in 1..Len(e.logs[g]) : e.logs[g][j].k = "hold"}} : g \in 1..Len(all)}
       IN IF bad # {} THEN "goroutine: " \o all[CHOOSE g \in bad : TRUE]
          ELSE IF \E x \in merged : \E y \in merged : x[1] = y[1] /\ x[2] # y[2] THEN "the same text gives two trees"
          ELSE "ok"
=============================================================================
