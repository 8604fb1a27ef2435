-------------------------------- MODULE Mongo --------------------------------
(* The meaning of a MongoDB query document on a document (a list of named    *)
(* values): an element names a field or is $and / $or; what it says of a     *)
(* field is a regular expression or operators, all of which must hold.       *)
(* Documents here: [t |-> "doc", e |-> <<[k |-> name, v |-> value], ...>>],  *)
(* [t |-> "arr", e], [t |-> "re", p, o] and values as logged.                *)
EXTENDS Eval45

Dollar(s) == <<36>> \o Txt(s)
MongoOp(k) == LET is == {o \in {"eq", "ne", "lt", "lte", "gt", "gte", "in", "nin", "exists", "not", "and", "or"} : Dollar(o) = k}
              IN IF is = {} THEN "?" ELSE CHOOSE o \in is : TRUE
\* a value of the query
QueryV(v) == CASE v.t = "num" -> Number(v.neg, [d |-> v.d, e |-> v.e])
               [] v.t = "str" -> Text45(v.v)
               [] v.t = "bool" -> Bool(v.v)
               [] v.t = "time" -> [t |-> "time", v |-> v.v]
               [] v.t = "null" -> NullV
               [] OTHER -> Vague
\* values compare within their kind only
Kinds3(a, b) == a.t = b.t /\ a.t \in {"num", "str", "time", "bool"}
Holds(op, a, b) ==
  IF a.t = "?" \/ b.t = "?" THEN Vague
  ELSE IF ~Kinds3(a, b) THEN Bool(FALSE)
  ELSE IF a.t = "bool" THEN Ordered(op, IF a.v = b.v THEN "eq" ELSE IF b.v THEN "lt" ELSE "gt")
  ELSE IF a.t = "num" THEN Ordered(op, Order45(a, b))
  ELSE IF a.t = "str" THEN Ordered(op, Side(TextLess(a.v, b.v), TextLess(b.v, a.v)))
  ELSE Ordered(op, Side(TimeLess(a.v, b.v), TimeLess(b.v, a.v)))
\* a field with a list matches if one of its values does; vs: the values of the field
Elements(v) == IF v.t = "strs" THEN {Text45(v.e[i]) : i \in 1..Len(v.e)} ELSE {v}
AnyOf(R) == IF Bool(TRUE) \in R THEN Bool(TRUE) ELSE IF Vague \in R THEN Vague ELSE Bool(FALSE)
AllOf(R) == IF Bool(FALSE) \in R THEN Bool(FALSE) ELSE IF Vague \in R THEN Vague ELSE Bool(TRUE)

RECURSIVE Says(_, _, _)
\* what is said of a field that is there, with value v
Says(op, v, q) ==
  CASE op = "eq" -> AnyOf({Holds("EQ", x, QueryV(q)) : x \in Elements(v)})
    [] op = "ne" -> NotV(Says("eq", v, q))
    [] op = "lt" -> AnyOf({Holds("LT", x, QueryV(q)) : x \in Elements(v)})
    [] op = "lte" -> AnyOf({Holds("LE", x, QueryV(q)) : x \in Elements(v)})
    [] op = "gt" -> AnyOf({Holds("GT", x, QueryV(q)) : x \in Elements(v)})
    [] op = "gte" -> AnyOf({Holds("GE", x, QueryV(q)) : x \in Elements(v)})
    [] op = "in" -> IF q.t # "arr" THEN Err ELSE AnyOf({Says("eq", v, q.e[i]) : i \in 1..Len(q.e)})
    [] op = "nin" -> IF q.t # "arr" THEN Err ELSE NotV(Says("in", v, q))
    [] op = "re" -> IF q.o # <<>> THEN Vague ELSE AnyOf({IF x.t = "str" THEN RegV(x, Text45(q.p)) ELSE Bool(FALSE) : x \in Elements(v)})
    [] OTHER -> Err
RECURSIVE OfField(_, _)
\* there: whether the record has the field
OfField(f, q) ==
  IF q.t = "re" THEN (IF f.there THEN Says("re", f.v, q) ELSE Bool(FALSE))
  ELSE IF q.t # "doc" THEN OfField(f, [t |-> "doc", e |-> <<[k |-> Dollar("eq"), v |-> q]>>])
  ELSE LET one(x) == LET op == MongoOp(x.k) IN
             IF op = "exists" THEN (IF x.v.t # "bool" THEN Err ELSE Bool(x.v.v = f.there))
             ELSE IF op = "not" THEN NotV(OfField(f, x.v))
             ELSE IF op \in {"?", "and", "or"} THEN Err
             ELSE IF f.there THEN Says(op, f.v, x.v) ELSE Bool(op \in {"ne", "nin"})
           all == {one(q.e[i]) : i \in 1..Len(q.e)}
       IN IF q.e = <<>> \/ Err \in all THEN Err ELSE AllOf(all)
RECURSIVE Query(_, _, _)
Query(V, d, rec) ==
  IF d.t # "doc" THEN Err
  ELSE LET one(x) == LET op == MongoOp(x.k) IN
             IF op \in {"and", "or"} THEN
               (IF x.v.t # "arr" THEN Err
                ELSE LET all == {Query(V, x.v.e[i], rec) : i \in 1..Len(x.v.e)}
                     IN IF x.v.e = <<>> \/ Err \in all THEN Err ELSE IF op = "and" THEN AllOf(all) ELSE AnyOf(all))
             ELSE IF x.k # <<>> /\ x.k[1] = 36 THEN Err
             ELSE LET v == Lookup(rec, x.k, 1)
                  IN OfField([there |-> v # Err, v |-> IF v = Err THEN NullV ELSE Go45(V, v)], x.v)
           all == {one(d.e[i]) : i \in 1..Len(d.e)}
       IN IF Err \in all THEN Err ELSE AllOf(all)
=============================================================================
