------------------------------- MODULE Laws6 --------------------------------
(* Laws that users of the language rely on.  Law(name, p) is the pair of     *)
(* filters (trees) that must agree, for operands p[1], p[2], ...             *)
EXTENDS Integers, Sequences, Eval6

Not(x) == Un("NOT", x)
LawNames == <<"ne", "nenot", "notin", "in0", "in1", "in2", "in3", "between", "notbetween", "lt-gt", "le-ge", "le", "ge", "not-lt", "not-gt",
              "not-and", "not-or", "not-not", "and", "or", "eq", "plus", "times", "not-match", "and-assoc", "or-assoc",
              "and-or", "or-and", "minus", "negate", "not-null", "like", "and-same", "or-same", "in-order", "not-eq">>
Law(name, p) ==
  LET x == p[1]
      y == p[2]
      z == p[3]
  IN CASE name = "ne" -> <<Bin("NE", x, y), Not(Bin("EQ", x, y))>>
       [] name = "nenot" -> <<Not(Bin("NE", x, y)), Bin("EQ", x, y)>>
       [] name = "notin" -> <<Not(Bin("IN", x, Arr(<<y, z>>))), Bin("AND", Bin("NE", x, y), Bin("NE", x, z))>>
       [] name = "in0" -> <<Bin("IN", x, Arr(<<>>)), Bin("NE", x, x)>>
       [] name = "in1" -> <<Bin("IN", x, Arr(<<y>>)), Bin("EQ", x, y)>>
       [] name = "in2" -> <<Bin("IN", x, Arr(<<y, z>>)), Bin("OR", Bin("EQ", x, y), Bin("EQ", x, z))>>
       [] name = "in3" -> <<Bin("IN", x, Arr(<<y, z, p[4]>>)),
                            Bin("OR", Bin("OR", Bin("EQ", x, y), Bin("EQ", x, z)), Bin("EQ", x, p[4]))>>
       [] name = "in-order" -> <<Bin("IN", x, Arr(<<y, z>>)), Bin("IN", x, Arr(<<z, y, z>>))>>
       [] name = "between" -> <<Bin("BETWEEN", x, Arr(<<y, z>>)), Bin("AND", Bin("GE", x, y), Bin("LE", x, z))>>
       [] name = "notbetween" -> <<Not(Bin("BETWEEN", x, Arr(<<y, z>>))), Bin("OR", Bin("LT", x, y), Bin("GT", x, z))>>
       [] name = "lt-gt" -> <<Bin("LT", x, y), Bin("GT", y, x)>>
       [] name = "le-ge" -> <<Bin("LE", x, y), Bin("GE", y, x)>>
       [] name = "le" -> <<Bin("LE", x, y), Bin("OR", Bin("LT", x, y), Bin("EQ", x, y))>>
       [] name = "ge" -> <<Bin("GE", x, y), Bin("OR", Bin("GT", x, y), Bin("EQ", x, y))>>
       [] name = "not-lt" -> <<Not(Bin("LT", x, y)), Bin("GE", x, y)>>
       [] name = "not-gt" -> <<Not(Bin("GT", x, y)), Bin("LE", x, y)>>
       [] name = "not-eq" -> <<Not(Bin("EQ", x, y)), Bin("OR", Bin("LT", x, y), Bin("GT", x, y))>>
       [] name = "not-and" -> <<Not(Bin("AND", x, y)), Bin("OR", Not(x), Not(y))>>
       [] name = "not-or" -> <<Not(Bin("OR", x, y)), Bin("AND", Not(x), Not(y))>>
       [] name = "not-not" -> <<Not(Not(x)), x>>
       [] name = "and" -> <<Bin("AND", x, y), Bin("AND", y, x)>>
       [] name = "or" -> <<Bin("OR", x, y), Bin("OR", y, x)>>
       [] name = "eq" -> <<Bin("EQ", x, y), Bin("EQ", y, x)>>
       [] name = "plus" -> <<Bin("ADD", x, y), Bin("ADD", y, x)>>
       [] name = "times" -> <<Bin("MUL", x, y), Bin("MUL", y, x)>>
       [] name = "minus" -> <<Bin("SUB", x, y), Bin("ADD", x, Un("NEG", y))>>
       [] name = "negate" -> <<Un("NEG", Un("NEG", x)), Bin("MUL", x, [k |-> "num", v |-> <<49>>])>>
       [] name = "not-match" -> <<Bin("RNE", x, y), Not(Bin("REQ", x, y))>>
       [] name = "and-assoc" -> <<Bin("AND", x, Bin("AND", y, z)), Bin("AND", Bin("AND", x, y), z)>>
       [] name = "or-assoc" -> <<Bin("OR", x, Bin("OR", y, z)), Bin("OR", Bin("OR", x, y), z)>>
       [] name = "and-or" -> <<Bin("AND", x, Bin("OR", y, z)), Bin("OR", Bin("AND", x, y), Bin("AND", x, z))>>
       [] name = "or-and" -> <<Bin("OR", x, Bin("AND", y, z)), Bin("AND", Bin("OR", x, y), Bin("OR", x, z))>>
       [] name = "not-null" -> <<Not(Bin("IS", x, Null)), Not(Bin("IS", Un("NEG", Un("NEG", x)), Null))>>
       [] name = "like" -> <<Bin("LIKE", x, y), Bin("AND", Bin("LIKE", x, y), Bin("ILIKE", x, y))>>
       [] name = "and-same" -> <<Bin("AND", x, x), x>>
       [] name = "or-same" -> <<Bin("OR", x, x), x>>
=============================================================================
