------------------------------- MODULE Heap6 --------------------------------
(* The trees a v6 program owns, and what it may do with them.                *)
(* S.n: all nodes ever made, [k, c, kids]: kind, content, places of the      *)
(* children in S.n (0: detached).  S.live: the nodes not yet released.       *)
(* S.h: the handles the program holds, in order: a place in S.n, or 0 for no *)
(* node.  A handle may be owned (its node has no parent) or borrowed.        *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [n |-> <<>>, live |-> {}, h |-> <<>>]

\* --- reading the heap
RECURSIVE Under(_, _)
Under(S, i) == IF i = 0 THEN {} ELSE {i} \cup UNION {Under(S, S.n[i].kids[j]) : j \in 1..Len(S.n[i].kids)}
HasParent(S, i) == \E p \in S.live : \E j \in 1..Len(S.n[p].kids) : S.n[p].kids[j] = i
Roots(S) == {i \in S.live : ~HasParent(S, i)}
Usable(S, x) == S.h[x] = 0 \/ S.h[x] \in S.live       \* not left dangling

\* --- a new tree, made of a tree record (Gram6) or of a node and those under it
RECURSIVE Grow(_, _), GrowAll(_, _, _, _)
\* [S, i]: the tree t appended
Grow(S, t) ==
  LET at == Len(S.n) + 1
      S1(k, c) == [S EXCEPT !.n = Append(@, [k |-> k, c |-> c, kids |-> <<>>]), !.live = @ \cup {at}]
  IN CASE t.k = "bin" -> GrowAll(S1("bin", t.op), at, <<t.l, t.r>>, 1)
       [] t.k = "un" -> GrowAll(S1("un", t.op), at, <<t.r>>, 1)
       [] t.k = "arr" -> GrowAll(S1("arr", ""), at, t.e, 1)
       [] OTHER -> [S |-> S1("leaf", t.k \o " " \o t.v), i |-> at]
GrowAll(S, at, ts, j) ==
  IF j > Len(ts) THEN [S |-> S, i |-> at]
  ELSE LET g == Grow(S, ts[j])
       IN GrowAll([g.S EXCEPT !.n[at].kids = Append(@, g.i)], at, ts, j + 1)
RECURSIVE Copy(_, _), CopyAll(_, _, _, _)
Copy(S, i) ==
  IF i = 0 THEN [S |-> S, i |-> 0]
  ELSE LET at == Len(S.n) + 1
       IN CopyAll([S EXCEPT !.n = Append(@, [S.n[i] EXCEPT !.kids = <<>>]), !.live = @ \cup {at}], at, S.n[i].kids, 1)
CopyAll(S, at, from, j) ==
  IF j > Len(from) THEN [S |-> S, i |-> at]
  ELSE LET g == Copy(S, from[j])
       IN CopyAll([g.S EXCEPT !.n[at].kids = Append(@, g.i)], at, from, j + 1)

\* --- the operations: [S, r] where r is the outcome ("ok", "nil", "yes", "no")
Hold(S, i) == [S |-> [S EXCEPT !.h = Append(@, i)], r |-> IF i = 0 THEN "nil" ELSE "ok"]
DoParse(S, t) == LET g == Grow(S, t) IN Hold(g.S, g.i)
DoClone(S, x) == LET g == Copy(S, S.h[x]) IN Hold(g.S, g.i)
\* w: "left", "right", "child"
Place(w) == IF w = "right" THEN 2 ELSE 1
Fits(S, i, w) == i # 0 /\ S.n[i].k = (IF w = "child" THEN "un" ELSE "bin")
DoDetach(S, x, w) ==
  LET i == S.h[x] IN
  IF ~Fits(S, i, w) \/ S.n[i].kids[Place(w)] = 0 THEN Hold(S, 0)
  ELSE Hold([S EXCEPT !.n[i].kids[Place(w)] = 0], S.n[i].kids[Place(w)])
\* the place in the node of x that w ("left", "right", "child", "element" and its place p) names, or 0
Slot(S, x, w, p) ==
  LET i == S.h[x] IN
  IF w = "element" THEN (IF i # 0 /\ S.n[i].k = "arr" /\ p \in 1..Len(S.n[i].kids) THEN p ELSE 0)
  ELSE IF Fits(S, i, w) THEN Place(w) ELSE 0
MayAttach(S, x, w, p, y) ==
  LET q == Slot(S, x, w, p) IN
  \/ q = 0 \/ S.h[y] = 0                              \* it will be refused
  \/ S.n[S.h[x]].kids[q] = S.h[y]                     \* the child that is there
  \/ S.h[y] \in Roots(S) /\ S.h[x] \notin Under(S, S.h[y])
DoAttach(S, x, w, p, y) ==
  LET q == Slot(S, x, w, p) IN
  IF q = 0 \/ S.h[y] = 0 THEN [S |-> S, r |-> "no"]
  ELSE LET i == S.h[x]
           old == S.n[i].kids[q]
       IN [S |-> IF old = S.h[y] THEN S
                 ELSE [S EXCEPT !.n[i].kids[q] = S.h[y], !.live = @ \ Under(S, old)], r |-> "yes"]
MayFree(S, x) == S.h[x] = 0 \/ S.h[x] \in Roots(S)
DoFree(S, x) == [S |-> [S EXCEPT !.live = @ \ Under(S, S.h[x]), !.h[x] = 0], r |-> "ok"]
\* a borrowed handle for the p-th child
DoBorrow(S, x, p) ==
  LET i == S.h[x] IN Hold(S, IF i # 0 /\ p \in 1..Len(S.n[i].kids) THEN S.n[i].kids[p] ELSE 0)

\* the trees parsed
A == [k |-> "ident", v |-> "a"]
B == [k |-> "num", v |-> "1"]
Trees == <<[k |-> "bin", op |-> "EQ", l |-> A, r |-> B],                                             \* a = 1
           [k |-> "un", op |-> "NOT", r |-> A],                                                       \* not a
           [k |-> "bin", op |-> "IN", l |-> A, r |-> [k |-> "arr", e |-> <<B, A>>]],                  \* a in [1, a]
           [k |-> "str"  , v |-> "s"],                                                                \* 's'
           [k |-> "bin", op |-> "AND", l |-> [k |-> "un", op |-> "NEG", r |-> A], r |-> [k |-> "un", op |-> "NOT", r |-> B]],
           [k |-> "arr", e |-> <<[k |-> "arr", e |-> <<A>>], B>>]>>                                   \* [[a], 1]
\* an operation o = [o, x, w, p, y, t]
May(S, o) ==
  CASE o.o = "parse" -> TRUE
    [] o.o \in {"clone", "detach", "borrow"} -> Usable(S, o.x)
    [] o.o = "attach" -> Usable(S, o.x) /\ Usable(S, o.y) /\ MayAttach(S, o.x, o.w, o.p, o.y)
    [] o.o = "free" -> Usable(S, o.x) /\ MayFree(S, o.x)
Do(S, o) ==
  CASE o.o = "parse" -> DoParse(S, Trees[o.t])
    [] o.o = "clone" -> DoClone(S, o.x)
    [] o.o = "detach" -> DoDetach(S, o.x, o.w)
    [] o.o = "borrow" -> DoBorrow(S, o.x, o.p)
    [] o.o = "attach" -> DoAttach(S, o.x, o.w, o.p, o.y)
    [] o.o = "free" -> DoFree(S, o.x)

\* --- what must always hold
Parents(S, i) == {<<p, j>> \in S.live \X (1..4) : j <= Len(S.n[p].kids) /\ S.n[p].kids[j] = i}
Forest(S) == /\ \A i \in S.live : Cardinality(Parents(S, i)) <= 1                     \* nothing is shared
             /\ \A p \in S.live : \A j \in 1..Len(S.n[p].kids) : S.n[p].kids[j] \in S.live \cup {0}   \* nothing released is reachable
             /\ S.live = UNION {Under(S, r) : r \in Roots(S)}                         \* no rings
\* every tree is held by a handle: it can still be freed
NoneLost(S) == Roots(S) \subseteq {S.h[x] : x \in 1..Len(S.h)}
\* a handle for every tree, and the state once these are freed
Own(S) == {x \in 1..Len(S.h) : S.h[x] # 0 /\ S.h[x] \in Roots(S) /\ \A y \in 1..x - 1 : S.h[y] # S.h[x]}
RECURSIVE FreeAll(_, _)
FreeAll(S, xs) == IF xs = {} THEN S
                  ELSE LET x == CHOOSE y \in xs : TRUE IN FreeAll(DoFree(S, x).S, xs \ {x})
RECURSIVE Reads(_, _)
Reads(S, i) == IF i = 0 THEN [k |-> "none", c |-> "", kids |-> <<>>]
               ELSE [k |-> S.n[i].k, c |-> S.n[i].c, kids |-> [j \in 1..Len(S.n[i].kids) |-> Reads(S, S.n[i].kids[j])]]
\* trees other than those an operation names read as before
Named(S, o) == {S.h[x] : x \in {y \in {o.x, o.y} : y # 0}}
Untouched(S, o, T) ==
  \A r \in Roots(S) : Under(S, r) \cap Named(S, o) = {} =>
    r \in T.live /\ (o.o = "clone" \/ Reads(T, r) = Reads(S, r))
CloneSame(S, o, T) ==
  o.o = "clone" /\ S.h[o.x] # 0 =>
    /\ Reads(T, T.h[Len(T.h)]) = Reads(S, S.h[o.x])
    /\ Under(T, T.h[Len(T.h)]) \cap S.live = {}
    /\ Reads(T, S.h[o.x]) = Reads(S, S.h[o.x])
=============================================================================
