----------------------------- MODULE CheckMem6 -----------------------------
(* Memory: an operation that frees what it was given (Heap6!NoLeak) leaves   *)
(* the process as large as before.  e.blocks: the C blocks held after each   *)
(* of six runs.  The first runs may fill buffers that are kept.              *)
EXTENDS TraceLoop

Rises(s, from) == \A i \in from..Len(s) - 1 : s[i + 1] > s[i]
JudgeMem(e) ==
  IF e.out # "done" THEN "outcome " \o e.out
  ELSE IF Rises(e.blocks, 2) THEN "each run keeps more blocks of memory"
  ELSE IF e.op = "mem" /\ Rises(e.bytes, 2) THEN "each run keeps more memory"
  ELSE IF e.op = "many" /\ Rises(e.objects, 2) /\ e.objects[6] - e.objects[2] > 200 + e.arg.n
    THEN "different filters keep more and more objects"
  ELSE IF e.op = "many" /\ Rises(e.heap, 2) /\ e.heap[6] - e.heap[2] > 100000 + 100 * e.arg.n
    THEN "different filters keep more and more memory"
  ELSE "ok"
=============================================================================
