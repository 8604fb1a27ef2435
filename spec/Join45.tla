------------------------------- MODULE Join45 -------------------------------
(* How v4 and v5 build arithmetic: the parser hands over operands in some    *)
(* bracketing of the chain and two neighbours are joined at a time.          *)
(* Whatever the bracketing, the tree must be the one of the grammar.         *)
EXTENDS Integers, Sequences
CONSTANTS Depth, Regroup   \* operators per chain; FALSE: join the top of the right operand only
VARIABLES parts, ops, chain

Leaf(i) == [op |-> "leaf", n |-> i]
Node(op, a, b) == [op |-> op, a |-> a, b |-> b]
Prec(t) == CASE t \in {"+", "-"} -> 1 [] t \in {"*", "/"} -> 2 [] OTHER -> 3

RECURSIVE Join(_, _, _)
Join(op, x, y) ==
  IF Prec(y.op) <= Prec(op)
    THEN IF Regroup THEN Join(y.op, Join(op, x, y.a), y.b) ELSE Node(y.op, Join(op, x, y.a), y.b)
  ELSE IF Prec(x.op) < Prec(op) THEN Node(x.op, x.a, Join(op, x.b, y))
  ELSE Node(op, x, y)

\* the tree of operands a..b of a chain: split at the last operator that binds least
RECURSIVE TreeOf(_, _, _)
TreeOf(c, a, b) ==
  IF a = b THEN Leaf(a)
  ELSE LET low == {i \in a..(b - 1) : \A j \in a..(b - 1) : Prec(c[i]) <= Prec(c[j])}
           k == CHOOSE i \in low : \A j \in low : j <= i
       IN Node(c[k], TreeOf(c, a, k), TreeOf(c, k + 1, b))

Init == /\ chain \in UNION {[1..n -> {"+", "-", "*", "/"}] : n \in 1..Depth}
        /\ ops = chain
        /\ parts = [i \in 1..(Len(chain) + 1) |-> Leaf(i)]
Next == \E i \in 1..Len(ops) :
          /\ parts' = [j \in 1..(Len(parts) - 1) |->
                         IF j < i THEN parts[j] ELSE IF j > i THEN parts[j + 1] ELSE Join(ops[i], parts[i], parts[i + 1])]
          /\ ops' = [j \in 1..(Len(ops) - 1) |-> IF j < i THEN ops[j] ELSE ops[j + 1]]
          /\ UNCHANGED chain
Spec == Init /\ [][Next]_<<parts, ops, chain>>

Grammatical == Len(parts) = 1 => parts[1] = TreeOf(chain, 1, Len(chain) + 1)
=============================================================================
