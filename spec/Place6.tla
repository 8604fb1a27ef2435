------------------------------- MODULE Place6 -------------------------------
(* Places in a tree: a way p leads from the root down (1 left or child, 2    *)
(* right; an element's place in an array).                                   *)
EXTENDS Integers, Sequences

Gap == [k |-> "none"]
Kids(n) == CASE n.k = "bin" -> <<n.l, n.r>> [] n.k = "un" -> <<n.r>> [] n.k = "arr" -> n.e [] OTHER -> <<>>
WithKid(n, i, x) == CASE n.k = "bin" -> (IF i = 1 THEN [n EXCEPT !.l = x] ELSE [n EXCEPT !.r = x])
                      [] n.k = "un" -> [n EXCEPT !.r = x]
                      [] n.k = "arr" -> [n EXCEPT !.e = [@ EXCEPT ![i] = x]]
RECURSIVE PartAt(_, _, _), Replace(_, _, _, _), Sound(_, _, _)
Sound(n, p, j) == j > Len(p) \/ (p[j] \in 1..Len(Kids(n)) /\ Sound(Kids(n)[p[j]], p, j + 1))
PartAt(n, p, j) == IF j > Len(p) THEN n ELSE PartAt(Kids(n)[p[j]], p, j + 1)
Replace(n, p, j, x) == IF j > Len(p) THEN x ELSE WithKid(n, p[j], Replace(Kids(n)[p[j]], p, j + 1, x))
\* with the part taken out
Hole(n, p) == Replace(n, p, 1, Gap)
=============================================================================
