------------------------------- MODULE Cause6 -------------------------------
(* Why a v6 filter has no value on a record: the set of what may be said to  *)
(* be wrong.  A cause is [k |-> "key", v |-> name] (no such field), "zero"   *)
(* (division by zero), "type" (the operands do not suit the operator),       *)
(* "pattern" (not a regular expression) or "?" (not decided).  Which operand *)
(* is looked at first is left open: where several fail, each may be named.   *)
EXTENDS Eval6

No(k) == {[k |-> k, v |-> <<>>]}
Text(v) == v.t = "str" \/ (v.t = "time" /\ "txt" \in DOMAIN v)

\* the cause of the failure of an operator on values
RECURSIVE BinCause(_, _, _)
BinCause(op, a, b) ==
  IF a.t = "?" \/ b.t = "?" THEN No("?")
  ELSE IF a.t = "arr" THEN UNION {IF BinV(op, a.e[i], b) = Err THEN BinCause(op, a.e[i], b)
                                  ELSE IF BinV(op, a.e[i], b) = Vague THEN No("?") ELSE {} : i \in 1..Len(a.e)}
  ELSE IF op \in {"DIV", "MOD"} /\ IsNum(a) /\ IsNum(b) THEN No("zero")
  ELSE IF op \in {"REQ", "RNE"} /\ a.t = "str" /\ b.t = "str" THEN No("pattern")
  ELSE IF Odd(a) \/ Odd(b) THEN No("?")
  ELSE No("type")

RECURSIVE Causes(_, _)
Causes(n, rec) ==
  LET v == Eval(n, rec) IN
  IF v = Vague THEN No("?")
  ELSE IF v # Err THEN {}
  ELSE CASE n.k = "ident" -> {[k |-> "key", v |-> n.v]}
         [] n.k = "bin" -> LET c == Causes(n.l, rec) \cup Causes(n.r, rec)
                           IN IF c # {} THEN c ELSE BinCause(n.op, Eval(n.l, rec), Eval(n.r, rec))
         [] n.k = "un" -> LET c == Causes(n.r, rec) IN IF c # {} THEN c ELSE No("type")
         [] n.k = "arr" -> UNION {Causes(n.e[i], rec) : i \in 1..Len(n.e)}
         [] OTHER -> No("?")
=============================================================================
