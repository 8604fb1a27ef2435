------------------------------- MODULE Tree6 --------------------------------
(* When a tree read out of the implementation is the tree the grammar gives. *)
EXTENDS Integers, Sequences, Gram6, Decimal

\* --- numbers: v is the literal's text, f the logged double
IsNeg(v) == v[1] = 45
NumMatch(v, f) ==
  LET a == Sign(v, 1)
      n == Len(v)
      bin == n > 1 /\ LowC(v[n]) = 105
      b == IF bin THEN n - 2 ELSE IF IsLetter(v[n]) THEN n - 1 ELSE n
      u == IF b < n THEN UnitOf(v[b + 1]) ELSE 0
      x == Magnitude(v, a, b)
  IN /\ "nan" \notin DOMAIN f
     /\ f.neg = IsNeg(v)
     \* a suffix scales the (rounded) number: at most one more rounding of it
     /\ IF u = 0 \/ bin THEN InInterval(DecMulN(x, 1024, IF u = 0 THEN 0 ELSE u), f)
        ELSE InWide([d |-> x.d, e |-> IF x.d = <<>> THEN 0 ELSE x.e + 3 * u], f)

\* T: the nodes of the tree, the root first; children are places in T
RECURSIVE NodeMatch(_, _, _)
NodeMatch(n, T, i) ==
  LET t == T[i] IN
  CASE t.k # n.k -> FALSE
    [] n.k = "ts" ->
         LET p == ParseLong(n.v)
         IN IF "t" \in DOMAIN t THEN (Lenient(n.v) \/ (p.ok /\ t.t = p.t)) ELSE t.v = n.v
    [] n.k = "num" -> NumMatch(n.v, t.f)
    [] n.k \in {"str", "ident"} -> t.v = n.v
    [] n.k = "date" -> IF "t" \in DOMAIN t THEN ParseShort(n.v).ok /\ ParseShort(n.v).t = t.t ELSE t.v = n.v
    [] n.k = "bool" -> t.v = n.v
    [] n.k \in {"null", "none"} -> TRUE
    [] n.k = "bin" -> t.op = n.op /\ NodeMatch(n.l, T, t.l) /\ NodeMatch(n.r, T, t.r)
    [] n.k = "un" -> t.op = n.op /\ NodeMatch(n.r, T, t.r)
    [] n.k = "arr" -> Len(t.e) = Len(n.e) /\ \A j \in 1..Len(n.e) : NodeMatch(n.e[j], T, t.e[j])
TreeMatch(n, T) == NodeMatch(n, T, 1)
=============================================================================
