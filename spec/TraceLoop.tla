----------------------------- MODULE TraceLoop ------------------------------
(* Walks a recorded trace, one event per step.  Judge(e) is "ok", "skip" (the *)
(* event is outside what the specification decides) or the reason why the    *)
(* event is no step of the specification.                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Judge(_)
VARIABLE l

Events == ndJsonDeserialize(IOEnv.TRACE)

Count(i) == TLCSet(i, TLCGet(i) + 1)
Init == l = 1 /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Next == /\ l <= Len(Events)
        /\ l' = l + 1
        /\ LET v == Judge(Events[l])
           IN CASE v = "ok" -> Count(1)
                [] v = "skip" -> Count(2) /\ PrintT("@@SKIP " \o ToString(l))
                [] OTHER -> Count(3) /\ PrintT("@@BAD " \o ToString(l) \o " " \o ToString(v))
Spec == Init /\ [][Next]_l
\* the whole trace was consumed
Consumed == /\ PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Events))
                      \o " ok " \o ToString(TLCGet(1)) \o " skip " \o ToString(TLCGet(2))
                      \o " bad " \o ToString(TLCGet(3)))
            /\ TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
