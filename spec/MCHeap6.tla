------------------------------ MODULE MCHeap6 -------------------------------
(* Model checks Heap6, and makes the sequences of operations the real        *)
(* library is put through.                                                   *)
EXTENDS Heap6, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxHandles, Few
VARIABLES S, hist, last

Op(o, x, w, p, y, t) == [o |-> o, x |-> x, w |-> w, p |-> p, y |-> y, t |-> t]
Hs == 1..Len(S.h)
Sides == {"left", "right", "child"}
Ops == {Op("parse", 0, "", 0, 0, t) : t \in IF Few THEN {1, 2} ELSE 1..Len(Trees)}
  \cup {Op("clone", x, "", 0, 0, 0) : x \in Hs}
  \cup {Op("free", x, "", 0, 0, 0) : x \in Hs}
  \cup {Op("detach", x, w, 0, 0, 0) : x \in Hs, w \in Sides}
  \cup {Op("borrow", x, "", p, 0, 0) : x \in Hs, p \in 1..2}
  \cup {Op("attach", x, w, 0, y, 0) : x \in Hs, y \in Hs, w \in Sides}
  \cup {Op("attach", x, "element", p, y, 0) : x \in Hs, y \in Hs, p \in 0..(IF Few THEN 0 ELSE 3)}
See(T) == {x \in 1..Len(T.h) : Usable(T, x)}

Init == S = Empty /\ hist = <<>> /\ last = [o |-> Op("none", 0, "", 0, 0, 0), S |-> Empty]
Can(o) == (Len(S.h) < MaxHandles \/ o.o \in {"free", "attach"}) /\ May(S, o)
Take(o) == /\ S' = Do(S, o).S
           /\ hist' = Append(hist, [o |-> o.o, x |-> o.x, w |-> o.w, p |-> o.p, y |-> o.y, t |-> o.t, see |-> See(S')])
           /\ last' = [o |-> o, S |-> S]
Next == Len(hist) < MaxOps /\ \E o \in Ops : Can(o) = TRUE /\ Take(o)
\* drawn at random: mostly one that changes something
AnOp == LET k == RandomElement({<<"parse", "">>, <<"clone", "">>, <<"free", "">>, <<"detach", "left">>, <<"detach", "right">>,
                                   <<"detach", "child">>, <<"borrow", "">>, <<"borrow", "">>, <<"attach", "left">>,
                                   <<"attach", "right">>, <<"attach", "child">>, <<"attach", "element">>, <<"attach", "element">>})
               x == RandomElement(1..Len(S.h))
               y == RandomElement(1..Len(S.h))
           IN CASE k[1] = "parse" -> Op("parse", 0, "", 0, 0, RandomElement(1..Len(Trees)))
                [] k[1] \in {"clone", "free"} -> Op(k[1], x, "", 0, 0, 0)
                [] k[1] = "detach" -> Op(k[1], x, k[2], 0, 0, 0)
                [] k[1] = "borrow" -> Op(k[1], x, "", RandomElement(1..2), 0, 0)
                [] OTHER -> Op("attach", x, k[2], IF k[2] = "element" THEN RandomElement({0, 1, 1, 2, 2, 3}) ELSE 0, y, 0)
Does(o) == /\ o.o = "free" => S.h[o.x] # 0 /\ Cardinality(Roots(S)) > 1
           /\ Do(S, o).r \in {"ok", "yes"}
Draw == IF S.h = <<>> THEN Op("parse", 0, "", 0, 0, RandomElement(1..Len(Trees)))
        ELSE LET odd == RandomElement(1..8) = 1
                 c == TLCEval([i \in 1..25 |-> AnOp])
                 fit == {i \in 1..25 : Can(c[i]) /\ (odd \/ Does(c[i]))}
             IN IF fit # {} THEN c[CHOOSE i \in fit : \A j \in fit : i <= j]
                ELSE LET can == {o \in Ops : Can(o)} IN RandomElement(can)
SimNext == Len(hist) < MaxOps /\ \E o \in {Draw} : Take(o)
\* a complete behaviour ends
End == Len(hist) = MaxOps /\ last.o.o # "none" /\ last' = [o |-> Op("none", 0, "", 0, 0, 0), S |-> S] /\ UNCHANGED <<S, hist>>
Spec == Init /\ [][Next \/ End]_<<S, hist, last>>
SimSpec == Init /\ [][SimNext \/ End]_<<S, hist, last>>

Inv == /\ Forest(S) /\ NoneLost(S)
       /\ last.o.o # "none" => Untouched(last.S, last.o, S) /\ CloneSame(last.S, last.o, S)
\* freeing all owned trees leaves nothing
NoLeak == FreeAll(S, Own(S)).live = {}
\* for model checking: states that differ in their history only are the same
View == <<S, last>>
\* for making behaviours: print each complete one
Emit == Len(hist) = MaxOps /\ last.o.o = "none" => PrintT("@@B " \o ToJson([ops |-> hist, own |-> Own(S)]))
=============================================================================
