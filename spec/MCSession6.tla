----------------------------- MODULE MCSession6 ----------------------------
(* Sequences of calls for one process: c is a call of the pool (1..N);       *)
(* "hold" keeps the tree of its text, "drop" frees the c-th tree kept.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxHeld
VARIABLES hist, held, kept, done
N == atoi(IOEnv.POOL)
Step(k, c) == [k |-> k, c |-> c]
Init == hist = <<>> /\ held = 0 /\ kept = {} /\ done = FALSE
Add(s) == hist' = Append(hist, s) /\ UNCHANGED done
CallIt(c) == Add(Step("call", c)) /\ UNCHANGED <<held, kept>>
HoldIt(c) == Cardinality(kept) < MaxHeld /\ Add(Step("hold", c)) /\ held' = held + 1 /\ kept' = kept \cup {held + 1}
DropIt(h) == Add(Step("drop", h)) /\ kept' = kept \ {h} /\ UNCHANGED held
\* all: every sequence of calls; drawn: longer ones with trees kept
NextAll == ~done /\ Len(hist) < MaxOps /\ \E c \in 1..N : CallIt(c)
NextDrawn == ~done /\ Len(hist) < MaxOps /\
  LET k == RandomElement(1..10) IN
  IF k <= 2 /\ Cardinality(kept) < MaxHeld THEN \E c \in {RandomElement(1..N)} : HoldIt(c)
  ELSE IF k = 3 /\ kept # {} THEN \E h \in {RandomElement(kept)} : DropIt(h)
  ELSE \E c \in {RandomElement(1..N)} : CallIt(c)
End == ~done /\ Len(hist) = MaxOps /\ done' = TRUE /\ UNCHANGED <<hist, held, kept>>
SpecAll == Init /\ [][NextAll \/ End]_<<hist, held, kept, done>>
SpecDrawn == Init /\ [][NextDrawn \/ End]_<<hist, held, kept, done>>
Emit == done => PrintT("@@B " \o ToJson(hist))
=============================================================================
