---------------------------- MODULE CheckHeap6 -----------------------------
(* A sequence of operations on v6 trees: every outcome and every tree that   *)
(* can be reached is what Heap6 says after each step.                        *)
EXTENDS Heap6, TraceLoop

\* what the usable handles read as: <<handle, tree>>
SeenAs(T) == {<<x, Reads(T, T.h[x])>> : x \in {y \in 1..Len(T.h) : Usable(T, y)}}
Step(st, o, got) ==
  IF st.v # "ok" THEN st
  ELSE IF ~May(st.S, o) THEN [st EXCEPT !.v = "skip"]
  ELSE LET d == TLCEval(Do(st.S, o))
           see == {<<got.see[j], got.trees[j]>> : j \in 1..Len(got.see)}
       IN IF got.r # d.r THEN [st EXCEPT !.v = o.o \o " " \o o.w \o " answers " \o got.r \o ", not " \o d.r]
          ELSE IF see # SeenAs(d.S) THEN [st EXCEPT !.v = "after " \o o.o \o " " \o o.w \o " a tree reads otherwise"]
          ELSE [st EXCEPT !.S = d.S]
RECURSIVE Walk(_, _, _)
Walk(st, e, i) == IF i > Len(e.steps) THEN st ELSE Walk(TLCEval(Step(st, e.arg.ops[i], e.steps[i])), e, i + 1)
JudgeHeap(e) ==
  IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF Len(e.steps) # Len(e.arg.ops) THEN "steps are missing"
  ELSE LET w == Walk([S |-> Empty, v |-> "ok"], e, 1)
       IN IF w.v = "ok" /\ {e.arg.own[j] : j \in 1..Len(e.arg.own)} # Own(w.S) THEN "skip" ELSE w.v
=============================================================================
